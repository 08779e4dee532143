
mod meaning;
mod props;
use searchkit::*;
fn main() { run(props::all(), props::show) }
