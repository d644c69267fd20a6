"""Copies the buildable part of /repo's working tree to /verif/build/crate, as /opt/vp/partial does.

The repository depends on a crate (spacemath) that is not there, so what needs it is left out:
the dependency line, src/main.rs, src/cli.yml, src/file, src/mesher, "mod file;" and "mod mesher;",
and top-level impls whose first line names spacemath (blanked, so that line numbers stay).
Everything else is copied verbatim; files are only written when their content changed."""
import os
import re

LEFT_OUT = ("src/main.rs", "src/cli.yml", "src/file/", "src/mesher/")


def blank_impls(text):
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        if re.match(r"impl\b.*\bspacemath::.*\{$", lines[i]):
            end = next((j for j in range(i + 1, len(lines)) if lines[j] and not lines[j][0].isspace()), None)
            if end is not None and lines[end] == "}":
                lines[i:end + 1] = [""] * (end + 1 - i)
                i = end
        i += 1
    return "\n".join(lines)


def mirror(repo, out, lock):
    wanted = {}
    for top, _, names in os.walk(f"{repo}/src"):
        for n in names:
            path = os.path.join(top, n)
            rel = os.path.relpath(path, repo)
            if rel.startswith(LEFT_OUT):
                continue
            data = open(path, "rb").read()
            if rel.endswith(".rs"):
                text = data.decode("utf-8", "surrogateescape")
                if rel == "src/lib.rs":
                    text = re.sub(r"(?m)^(pub )?mod (file|mesher);$", "", text)
                data = blank_impls(text).encode("utf-8", "surrogateescape")
            wanted[rel] = data
    manifest = open(f"{repo}/Cargo.toml").read()
    wanted["Cargo.toml"] = re.sub(r"(?m)^spacemath *=.*$", "", manifest).encode()
    for rel, data in wanted.items():
        path = os.path.join(out, rel)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if not os.path.exists(path) or open(path, "rb").read() != data:
            with open(path, "wb") as f:
                f.write(data)
    for top, _, names in os.walk(f"{out}/src"):
        for n in names:
            path = os.path.join(top, n)
            if os.path.relpath(path, out) not in wanted:
                os.remove(path)


if __name__ == "__main__":
    import sys
    mirror(sys.argv[1] if len(sys.argv) > 1 else "/repo", sys.argv[2] if len(sys.argv) > 2 else "/verif/build/crate", None)
