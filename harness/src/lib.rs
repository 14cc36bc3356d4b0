pub mod gen;
pub mod keys;
pub mod val;
pub mod case;
pub mod run;
pub mod obj;
pub mod views;
pub mod it;
pub mod ents;
pub mod world;
pub mod cmp;
pub mod drive;
pub mod tok;
pub mod values;
