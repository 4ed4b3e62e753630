//! A tag tree in memory. Tags which are `None` are there but cannot be read.
use ringhopper::primitives::error::*;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use ringhopper::tag::tree::*;
use std::borrow::Cow;
use std::collections::BTreeMap;

#[derive(Default)]
pub struct MemTree { pub tags: BTreeMap<TagPath, Option<Box<dyn PrimaryTagStructDyn>>>, pub cache: bool }
// SAFETY: what is behind a shared reference is only cloned; tags are plain data, or behind a mutex.
unsafe impl Sync for MemTree {}
impl TagTree for MemTree {
    fn open_tag_copy(&self, p: &TagPath) -> RinghopperResult<Box<dyn PrimaryTagStructDyn>> {
        match self.tags.get(p) { Some(Some(t)) => Ok(t.clone_inner()), Some(None) => Err(Error::FailedToReadTag(p.clone(), vec![Error::ChecksumMismatch])), None => Err(Error::TagNotFound(p.clone())) }
    }
    fn files_in_path(&self, path: &str) -> Option<Vec<TagTreeItem<'_>>> {
        if !path.is_empty() { return None }
        Some(self.tags.keys().map(|p| TagTreeItem::new(TagTreeItemType::Tag, Cow::Owned(p.path().to_string()), Some(p.group()), self)).collect())
    }
    fn write_tag(&mut self, p: &TagPath, t: &dyn PrimaryTagStructDyn) -> RinghopperResult<bool> { self.tags.insert(p.clone(), Some(t.clone_inner())); Ok(true) }
    fn is_read_only(&self) -> bool { false }
    fn contains(&self, p: &TagPath) -> bool { self.tags.contains_key(p) }
    fn root(&self) -> TagTreeItem<'_> { TagTreeItem::new(TagTreeItemType::Directory, Cow::Borrowed(""), None, self) }
    fn tree_type(&self) -> TreeType { if self.cache { TreeType::CacheFile } else { TreeType::LooseTags } }
    fn get_all_tags_with_filter(&self, f: Option<&TagFilter>) -> Vec<TagPath> { iterate_through_all_tags(self, f).collect() }
}

/// A tag collection referring to these, in order (empty: no reference).
pub fn collection(refs: &[&str]) -> ringhopper::definitions::TagCollection {
    let mut t = ringhopper::definitions::TagCollection::default();
    for r in refs {
        let mut x = ringhopper::definitions::TagCollectionTag::default();
        if !r.is_empty() { x.reference = TagReference::Set(TagPath::from_path(r).unwrap()) }
        t.tags.items.push(x);
    }
    t
}
/// Any tag of a group with nothing in it.
pub fn empty(group: &str) -> Box<dyn PrimaryTagStructDyn> {
    use crate::refser::*;
    let g = &spec().groups[group];
    // no references, no data
    struct Zero; impl Chooser for Zero { fn leaf(&mut self, _: &[Step], ty: &Ty, _: &FieldDef) -> Val { match ty { Ty::Data(_) => Val::Data(vec![]), Ty::Ref { first, .. } => Val::Ref(first.clone().unwrap_or("bitmap".into()), None), t => Val::Leaf(vec![0; t.size()]) } } fn count(&mut self, _: &[Step], _: &str) -> usize { 0 } }
    let v = generate(&g.strukt, &mut vec![], &mut Zero);
    ringhopper::definitions::read_any_tag_from_file_buffer(&tag_file(group, &serialize(&g.strukt, &v, None)), ParseStrictness::Strict).unwrap_or_else(|e| panic!("{group}: {e:?}"))
}
