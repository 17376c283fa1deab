#![allow(dead_code)]
mod disc;
pub mod entries;
mod h_sale;
mod h_hook;
mod h_tree;
mod h_init;
mod h_life;
mod h_settle;
mod h_setup;
mod h_after;
mod svm;
mod sym;
mod world;
