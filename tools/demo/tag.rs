pub use tag_generator::TagGenerator;
pub fn distinct(all: &[String]) {
    for i in 0..all.len() {
        for j in 0..i {
            assert_ne!(all[i], all[j], "the same tag twice");
        }
    }
}
