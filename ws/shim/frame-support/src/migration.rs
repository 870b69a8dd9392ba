use crate::storage::MultiRemovalResults;
pub fn clear_storage_prefix(
    _module: &[u8],
    _item: &[u8],
    _hash: &[u8],
    _limit: Option<u32>,
    _cursor: Option<&[u8]>,
) -> MultiRemovalResults {
    MultiRemovalResults { backend: 0, unique: 0, loops: 0, maybe_cursor: None }
}
