//@include common.rs
//@include str.rs
//@include subseq.rs
