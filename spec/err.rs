//@ include prelude.rs
//@ known MatrixError::solve
verus! {
//@ enum MatrixError #[derive(Debug)]
impl MatrixError { #[verifier::external_body] fn solve<T>(msg: T) -> (res: Self) ensures res is SolveError { unimplemented!() } }
}
