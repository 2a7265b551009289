#![allow(static_mut_refs, dead_code, unused_imports, unused_variables, deprecated)]
pub mod exec; pub mod native; pub mod scn; pub mod seam; pub mod value; pub mod wstp;
#[path = "../../demo.rs"]
mod demo;
extern crate codeparser_wll;
#[global_allocator]
static A: seam::Alloc = seam::Alloc;
fn main() { demo::demo() }
/// Runs requests one after another in one process.
pub fn run(steps: Vec<scn::Step>) -> exec::Run { let mut s = scn::Scn::new("demo", 0); s.steps = steps; exec::run(&s) }
