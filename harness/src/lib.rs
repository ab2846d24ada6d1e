pub mod core;
pub mod inl;
pub mod plan;
pub mod seq;
pub mod seqc;
pub mod sparse;
