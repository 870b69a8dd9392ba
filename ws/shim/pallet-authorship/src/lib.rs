//! Stand-in for `pallet-authorship`: who is told of a block's author.
pub trait Config {}
pub trait EventHandler<Author, BlockNumber> {
    fn note_author(author: Author);
}
