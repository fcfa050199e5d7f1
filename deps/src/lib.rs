extern crate rmath;
