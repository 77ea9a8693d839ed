//! Prints the literals of the sources under test, for `src/dict_base.txt`.
fn main() {
    print!("{}", vcommon::dict::base());
}
