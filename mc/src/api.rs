//! Uniform blocking façade over every store flavour (async and sync API, all back ends).
use std::future::Future;
use std::io;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use terminus_store::layer::{IdTriple, Layer, ValueTriple};
use terminus_store::storage::archive::{ArchiveLayerStore, DirectoryArchiveBackend};
use terminus_store::storage::directory::{
    CachedDirectoryLabelStore, DirectoryLabelStore, DirectoryLayerStore,
};
use terminus_store::storage::memory::{MemoryLabelStore, MemoryLayerStore};
use terminus_store::storage::{CachedLayerStore, LockingHashMapLayerCache};
use terminus_store::storage::{LabelStore, LayerStore};
use terminus_store::store::sync::*;
use terminus_store::store::*;

pub type Name = [u32; 5];

thread_local! {
    static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().build().unwrap();
}
struct ThreadWaker(std::thread::Thread);
impl std::task::Wake for ThreadWaker {
    fn wake(self: Arc<Self>) {
        self.0.unpark()
    }
}
fn inline_hook(f: Box<dyn FnOnce() + Send>) {
    f()
}
/// Parks with a limit: nothing may keep an operation of a single thread waiting for long.
fn impatient(ready: &dyn Fn() -> bool) {
    let t = std::time::Instant::now();
    while !ready() {
        if t.elapsed().as_secs() > 20 {
            panic!("the operation waits for ever");
        }
        std::thread::sleep(std::time::Duration::from_micros(20));
    }
}
struct Reset(Option<tokio::mc_hook::Hook>);
impl Drop for Reset {
    fn drop(&mut self) {
        tokio::mc_hook::HOOK.with(|h| h.set(self.0));
    }
}
fn set_inline() -> Reset {
    tokio::mc_hook::PARK.with(|p| {
        if p.get().is_none() {
            p.set(Some(impatient))
        }
    });
    Reset(tokio::mc_hook::HOOK.with(|h| h.replace(Some(inline_hook))))
}
/// Runs a future to completion on this thread, in a current_thread runtime whose blocking tasks
/// (all file system calls) run inline: everything an operation does happens on this thread, in
/// a deterministic order.
pub fn block<T>(f: impl Future<Output = T>) -> T {
    let _r = set_inline();
    RT.with(|r| r.block_on(f))
}
/// The same for export and import, which use block_in_place and may therefore not be called from
/// inside a current_thread runtime.
pub fn block_mt<T>(f: impl Future<Output = T>) -> T {
    let _r = set_inline();
    let h = RT.with(|r| r.handle().clone());
    let _g = h.enter();
    let mut f = Box::pin(f);
    let w = Arc::new(ThreadWaker(std::thread::current())).into();
    let mut cx = std::task::Context::from_waker(&w);
    loop {
        match f.as_mut().poll(&mut cx) {
            std::task::Poll::Ready(r) => return r,
            std::task::Poll::Pending => {
                let t = std::time::Instant::now();
                std::thread::park_timeout(std::time::Duration::from_secs(20));
                if t.elapsed().as_secs() >= 20 {
                    panic!("the operation waits for ever");
                }
            }
        }
    }
}
/// The library's synchronous API, with its blocking tasks run inline.
pub fn sync<T>(f: impl FnOnce() -> T) -> T {
    let _r = set_inline();
    f()
}
/// What a store sits on: enough to open another, independent store on the same data.
#[derive(Clone)]
pub enum Backing {
    Mem(MemoryLabelStore, MemoryLayerStore),
    Disk(PathBuf),
}
impl Backing {
    pub fn new(f: Flavor, dir: &Path) -> Backing {
        if f.persistent() {
            Backing::Disk(dir.to_path_buf())
        } else {
            Backing::Mem(MemoryLabelStore::new(), MemoryLayerStore::new())
        }
    }
    pub fn open(&self, f: Flavor) -> AStore {
        match self {
            Backing::Disk(d) => open(f, d),
            Backing::Mem(l, s) => {
                let cached = Store::new(l.clone(), CachedLayerStore::new(s.clone(), LockingHashMapLayerCache::new()));
                match f {
                    Flavor::Mem => AStore::A(cached),
                    Flavor::SyncMem => AStore::S(SyncStore::wrap(cached)),
                    _ => AStore::A(Store::new(l.clone(), s.clone())),
                }
            }
        }
    }
    pub fn try_open(&self, f: Flavor) -> io::Result<AStore> {
        if let (Backing::Disk(d), Flavor::DirCachedLabels) = (self, f) {
            let l = block(CachedDirectoryLabelStore::open(d.clone()))?;
            return Ok(AStore::A(Store::new(
                l,
                CachedLayerStore::new(DirectoryLayerStore::new(d.clone()), LockingHashMapLayerCache::new()),
            )));
        }
        Ok(self.open(f))
    }
    /// an uncached view on the same data
    pub fn fresh(&self, f: Flavor) -> AStore {
        match self {
            Backing::Mem(..) => self.open(Flavor::MemUncached),
            Backing::Disk(_) if f.archive() => self.open(Flavor::RawArch),
            Backing::Disk(_) => self.open(Flavor::DirUncached),
        }
    }
    pub fn layer_store(&self, f: Flavor) -> Arc<dyn LayerStore> {
        match self {
            Backing::Mem(_, s) => Arc::new(s.clone()),
            Backing::Disk(d) => open_layer_store(f, d).unwrap(),
        }
    }
    /// the same with a cache of its own in front
    pub fn cached_layer_store(&self, f: Flavor) -> Arc<dyn LayerStore> {
        let c = LockingHashMapLayerCache::new();
        match self {
            Backing::Mem(_, s) => Arc::new(CachedLayerStore::new(s.clone(), c)),
            Backing::Disk(d) if f.archive() => {
                let b = DirectoryArchiveBackend::new(d.clone());
                Arc::new(CachedLayerStore::new(ArchiveLayerStore::new(b.clone(), b), c))
            }
            Backing::Disk(d) => Arc::new(CachedLayerStore::new(DirectoryLayerStore::new(d.clone()), c)),
        }
    }
    pub fn label_store(&self) -> Arc<dyn LabelStore> {
        match self {
            Backing::Mem(l, _) => Arc::new(l.clone()),
            Backing::Disk(d) => Arc::new(DirectoryLabelStore::new(d.clone())),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Flavor {
    Mem,
    MemUncached,
    Dir,
    DirUncached,
    DirCachedLabels,
    Arch(usize),
    RawArch,
    SyncMem,
    SyncDir,
    SyncArch(usize),
    SyncRaw,
}
impl Flavor {
    pub fn persistent(self) -> bool {
        !matches!(self, Flavor::Mem | Flavor::MemUncached | Flavor::SyncMem)
    }
    pub fn archive(self) -> bool {
        matches!(self, Flavor::Arch(_) | Flavor::RawArch | Flavor::SyncArch(_) | Flavor::SyncRaw)
    }
    pub fn parse(s: &str) -> Option<Flavor> {
        ALL_FLAVORS.iter().copied().find(|f| format!("{:?}", f) == s)
    }
}
pub const ALL_FLAVORS: &[Flavor] = &[
    Flavor::Mem,
    Flavor::Dir,
    Flavor::Arch(16),
    Flavor::RawArch,
    Flavor::Arch(0),
    Flavor::SyncMem,
    Flavor::SyncDir,
    Flavor::SyncArch(16),
    Flavor::SyncRaw,
    Flavor::MemUncached,
    Flavor::DirUncached,
    Flavor::DirCachedLabels,
];

#[derive(Clone)]
pub enum AStore {
    A(Store),
    S(SyncStore),
}
#[derive(Clone)]
pub enum ALayer {
    A(StoreLayer),
    S(SyncStoreLayer),
}
#[derive(Clone)]
pub enum ABuilder {
    A(StoreLayerBuilder),
    S(SyncStoreLayerBuilder),
}
#[derive(Clone)]
pub enum AGraph {
    A(NamedGraph),
    S(SyncNamedGraph),
}

/// Opens a store; for memory flavours `dir` is unused. Also returns the plain layer store on the same
/// data (for trait level operations such as `layers()`), where one can be opened.
pub fn open(f: Flavor, dir: &Path) -> AStore {
    let d: PathBuf = dir.to_path_buf();
    match f {
        Flavor::Mem => AStore::A(open_memory_store()),
        Flavor::MemUncached => AStore::A(Store::new(MemoryLabelStore::new(), MemoryLayerStore::new())),
        Flavor::Dir => AStore::A(open_directory_store(d)),
        Flavor::DirUncached => {
            AStore::A(Store::new(DirectoryLabelStore::new(d.clone()), DirectoryLayerStore::new(d)))
        }
        Flavor::DirCachedLabels => {
            let l = block(CachedDirectoryLabelStore::open(d.clone())).expect("open cached labels");
            AStore::A(Store::new(
                l,
                CachedLayerStore::new(DirectoryLayerStore::new(d), LockingHashMapLayerCache::new()),
            ))
        }
        Flavor::Arch(n) => AStore::A(open_archive_store(d, n)),
        Flavor::RawArch => AStore::A(open_raw_archive_store(d)),
        Flavor::SyncMem => AStore::S(open_sync_memory_store()),
        Flavor::SyncDir => AStore::S(open_sync_directory_store(d)),
        Flavor::SyncArch(n) => AStore::S(open_sync_archive_store(d, n)),
        Flavor::SyncRaw => AStore::S(open_sync_raw_archive_store(d)),
    }
}
pub fn open_layer_store(f: Flavor, dir: &Path) -> Option<Arc<dyn LayerStore>> {
    let d: PathBuf = dir.to_path_buf();
    if !f.persistent() {
        return None;
    }
    if f.archive() {
        let b = DirectoryArchiveBackend::new(d);
        Some(Arc::new(ArchiveLayerStore::new(b.clone(), b)))
    } else {
        Some(Arc::new(DirectoryLayerStore::new(d)))
    }
}

impl AStore {
    pub fn create(&self, l: &str) -> io::Result<AGraph> {
        match self {
            AStore::A(s) => block(s.create(l)).map(AGraph::A),
            AStore::S(s) => s.create(l).map(AGraph::S),
        }
    }
    pub fn open(&self, l: &str) -> io::Result<Option<AGraph>> {
        match self {
            AStore::A(s) => Ok(block(s.open(l))?.map(AGraph::A)),
            AStore::S(s) => Ok(s.open(l)?.map(AGraph::S)),
        }
    }
    pub fn delete(&self, l: &str) -> io::Result<bool> {
        match self {
            AStore::A(s) => block(s.delete(l)),
            AStore::S(s) => s.delete(l),
        }
    }
    pub fn labels(&self) -> io::Result<Vec<String>> {
        match self {
            AStore::A(s) => block(s.labels()),
            AStore::S(s) => s.labels(),
        }
    }
    pub fn get(&self, n: Name) -> io::Result<Option<ALayer>> {
        match self {
            AStore::A(s) => Ok(block(s.get_layer_from_id(n))?.map(ALayer::A)),
            AStore::S(s) => Ok(s.get_layer_from_id(n)?.map(ALayer::S)),
        }
    }
    pub fn base(&self) -> io::Result<ABuilder> {
        match self {
            AStore::A(s) => block(s.create_base_layer()).map(ABuilder::A),
            AStore::S(s) => s.create_base_layer().map(ABuilder::S),
        }
    }
    pub fn merge(&self, l: &[Name], tmp: &Path) -> io::Result<Name> {
        match self {
            AStore::A(s) => block(s.merge_base_layers(l, tmp)),
            AStore::S(s) => s.merge_base_layers(l, tmp),
        }
    }
    pub fn export(&self, l: &[Name]) -> io::Result<Vec<u8>> {
        let it = Box::new(l.to_vec().into_iter());
        match self {
            AStore::A(s) => {
                let s = s.clone();
                block_mt(async move { s.export_layers(it).await })
            }
            AStore::S(s) => s.export_layers(it),
        }
    }
    pub fn import(&self, pack: &[u8], l: &[Name]) -> io::Result<()> {
        let it = Box::new(l.to_vec().into_iter());
        match self {
            AStore::A(s) => {
                let s = s.clone();
                let pack = pack.to_vec();
                block_mt(async move { s.import_layers(&pack, it).await })
            }
            AStore::S(s) => s.import_layers(pack, it),
        }
    }
}
type TIter = Box<dyn Iterator<Item = IdTriple> + Send>;
macro_rules! lay {
    ($s:expr, $l:ident => $e:expr) => {
        match $s {
            ALayer::A($l) => block($e),
            ALayer::S($l) => $e,
        }
    };
}
impl ALayer {
    pub fn l(&self) -> &dyn Layer {
        match self {
            ALayer::A(l) => l,
            ALayer::S(l) => l,
        }
    }
    pub fn name(&self) -> Name {
        self.l().name()
    }
    pub fn child(&self) -> io::Result<ABuilder> {
        match self {
            ALayer::A(l) => block(l.open_write()).map(ABuilder::A),
            ALayer::S(l) => l.open_write().map(ABuilder::S),
        }
    }
    pub fn parent(&self) -> io::Result<Option<ALayer>> {
        match self {
            ALayer::A(l) => Ok(block(l.parent())?.map(ALayer::A)),
            ALayer::S(l) => Ok(l.parent()?.map(ALayer::S)),
        }
    }
    pub fn rollup(&self) -> io::Result<()> {
        lay!(self, l => l.rollup())
    }
    pub fn rollup_upto(&self, u: &ALayer) -> io::Result<()> {
        match (self, u) {
            (ALayer::A(l), ALayer::A(u)) => block(l.rollup_upto(u)),
            (ALayer::S(l), ALayer::S(u)) => l.rollup_upto(u),
            _ => unreachable!(),
        }
    }
    pub fn imprecise_rollup_upto(&self, u: &ALayer) -> io::Result<()> {
        match (self, u) {
            (ALayer::A(l), ALayer::A(u)) => block(l.imprecise_rollup_upto(u)),
            (ALayer::S(l), ALayer::S(u)) => l.imprecise_rollup_upto(u),
            _ => unreachable!(),
        }
    }
    pub fn squash(&self) -> io::Result<ALayer> {
        match self {
            ALayer::A(l) => block(l.squash()).map(ALayer::A),
            ALayer::S(l) => l.squash().map(ALayer::S),
        }
    }
    pub fn squash_upto(&self, u: &ALayer) -> io::Result<ALayer> {
        match (self, u) {
            (ALayer::A(l), ALayer::A(u)) => block(l.squash_upto(u)).map(ALayer::A),
            (ALayer::S(l), ALayer::S(u)) => l.squash_upto(u).map(ALayer::S),
            _ => unreachable!(),
        }
    }
    pub fn add_exists(&self, s: u64, p: u64, o: u64) -> io::Result<bool> {
        lay!(self, l => l.triple_addition_exists(s, p, o))
    }
    pub fn rem_exists(&self, s: u64, p: u64, o: u64) -> io::Result<bool> {
        lay!(self, l => l.triple_removal_exists(s, p, o))
    }
    pub fn adds(&self) -> io::Result<TIter> {
        lay!(self, l => l.triple_additions())
    }
    pub fn rems(&self) -> io::Result<TIter> {
        lay!(self, l => l.triple_removals())
    }
    pub fn adds_s(&self, s: u64) -> io::Result<TIter> {
        lay!(self, l => l.triple_additions_s(s))
    }
    pub fn rems_s(&self, s: u64) -> io::Result<TIter> {
        lay!(self, l => l.triple_removals_s(s))
    }
    pub fn adds_sp(&self, s: u64, p: u64) -> io::Result<TIter> {
        lay!(self, l => l.triple_additions_sp(s, p))
    }
    pub fn rems_sp(&self, s: u64, p: u64) -> io::Result<TIter> {
        lay!(self, l => l.triple_removals_sp(s, p))
    }
    pub fn adds_p(&self, p: u64) -> io::Result<TIter> {
        lay!(self, l => l.triple_additions_p(p))
    }
    pub fn rems_p(&self, p: u64) -> io::Result<TIter> {
        lay!(self, l => l.triple_removals_p(p))
    }
    pub fn adds_o(&self, o: u64) -> io::Result<TIter> {
        lay!(self, l => l.triple_additions_o(o))
    }
    pub fn rems_o(&self, o: u64) -> io::Result<TIter> {
        lay!(self, l => l.triple_removals_o(o))
    }
    pub fn add_count(&self) -> io::Result<usize> {
        lay!(self, l => l.triple_layer_addition_count())
    }
    pub fn rem_count(&self) -> io::Result<usize> {
        lay!(self, l => l.triple_layer_removal_count())
    }
    pub fn stack(&self) -> io::Result<Vec<Name>> {
        lay!(self, l => l.retrieve_layer_stack_names())
    }
}
impl ABuilder {
    pub fn name(&self) -> Name {
        match self {
            ABuilder::A(b) => b.name(),
            ABuilder::S(b) => b.name(),
        }
    }
    pub fn add(&self, t: ValueTriple) -> io::Result<()> {
        match self {
            ABuilder::A(b) => b.add_value_triple(t),
            ABuilder::S(b) => b.add_value_triple(t),
        }
    }
    pub fn rem(&self, t: ValueTriple) -> io::Result<()> {
        match self {
            ABuilder::A(b) => b.remove_value_triple(t),
            ABuilder::S(b) => b.remove_value_triple(t),
        }
    }
    pub fn add_id(&self, t: IdTriple) -> io::Result<()> {
        match self {
            ABuilder::A(b) => b.add_id_triple(t),
            ABuilder::S(b) => b.add_id_triple(t),
        }
    }
    pub fn rem_id(&self, t: IdTriple) -> io::Result<()> {
        match self {
            ABuilder::A(b) => b.remove_id_triple(t),
            ABuilder::S(b) => b.remove_id_triple(t),
        }
    }
    pub fn committed(&self) -> bool {
        match self {
            ABuilder::A(b) => b.committed(),
            ABuilder::S(b) => b.committed(),
        }
    }
    pub fn commit(&self) -> io::Result<ALayer> {
        match self {
            ABuilder::A(b) => block(b.commit()).map(ALayer::A),
            ABuilder::S(b) => b.commit().map(ALayer::S),
        }
    }
    pub fn commit_no_load(&self) -> io::Result<()> {
        match self {
            ABuilder::A(b) => block(b.commit_no_load()),
            ABuilder::S(b) => b.commit_no_load(),
        }
    }
    pub fn apply_delta(&self, l: &ALayer) -> io::Result<()> {
        match (self, l) {
            (ABuilder::A(b), ALayer::A(l)) => block(b.apply_delta(l)),
            (ABuilder::S(b), ALayer::S(l)) => b.apply_delta(l),
            _ => unreachable!(),
        }
    }
    pub fn apply_diff(&self, l: &ALayer) -> io::Result<()> {
        match (self, l) {
            (ABuilder::A(b), ALayer::A(l)) => b.apply_diff(l),
            (ABuilder::S(b), ALayer::S(l)) => b.apply_diff(l),
            _ => unreachable!(),
        }
    }
}
impl AGraph {
    pub fn head_version(&self) -> io::Result<(Option<ALayer>, u64)> {
        match self {
            AGraph::A(g) => block(g.head_version()).map(|(l, v)| (l.map(ALayer::A), v)),
            AGraph::S(g) => g.head_version().map(|(l, v)| (l.map(ALayer::S), v)),
        }
    }
    pub fn head(&self) -> io::Result<Option<ALayer>> {
        match self {
            AGraph::A(g) => Ok(block(g.head())?.map(ALayer::A)),
            AGraph::S(g) => Ok(g.head()?.map(ALayer::S)),
        }
    }
    pub fn set_head(&self, l: &ALayer) -> io::Result<bool> {
        match (self, l) {
            (AGraph::A(g), ALayer::A(l)) => block(g.set_head(l)),
            (AGraph::S(g), ALayer::S(l)) => g.set_head(l),
            _ => unreachable!(),
        }
    }
    pub fn force(&self, l: &ALayer) -> io::Result<()> {
        match (self, l) {
            (AGraph::A(g), ALayer::A(l)) => block(g.force_set_head(l)),
            (AGraph::S(g), ALayer::S(l)) => g.force_set_head(l),
            _ => unreachable!(),
        }
    }
    pub fn force_v(&self, l: &ALayer, v: u64) -> io::Result<bool> {
        match (self, l) {
            (AGraph::A(g), ALayer::A(l)) => block(g.force_set_head_version(l, v)),
            (AGraph::S(g), ALayer::S(l)) => g.force_set_head_version(l, v),
            _ => unreachable!(),
        }
    }
    pub fn delete(&self) -> io::Result<()> {
        match self {
            AGraph::A(g) => block(g.delete()),
            AGraph::S(g) => g.delete(),
        }
    }
    pub fn name(&self) -> String {
        match self {
            AGraph::A(g) => g.name().to_string(),
            AGraph::S(g) => g.name().to_string(),
        }
    }
}

pub fn hexn(n: Name) -> String {
    terminus_store::storage::name_to_string(n)
}
