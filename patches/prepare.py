#!/usr/bin/env python3
"""Copy the registry sources of the crates that take nondeterministic decisions into
/verif/.build/patched and route those decisions through dst_seam.  Idempotent; offline."""
import glob, os, re, shutil, sys, hashlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, '.build', 'patched')
HOME = os.environ.get('CARGO_HOME', os.path.expanduser('~/.cargo'))

def src(name):
    c = glob.glob(os.path.join(HOME, 'registry/src/*', name)) + glob.glob('/root/.cargo/registry/src/*/' + name)
    if not c:
        import tarfile
        for t in glob.glob(os.path.join(HOME, 'registry/cache/*', name + '.crate')) + glob.glob('/root/.cargo/registry/cache/*/' + name + '.crate'):
            d = os.path.join(ROOT, '.build', 'crates')
            os.makedirs(d, exist_ok=True)
            tarfile.open(t).extractall(d)
            return os.path.join(d, name)
        sys.exit('registry source of %s not found' % name)
    return c[0]

def sub(path, old, new, count=1):
    s = open(path).read()
    if s.count(old) != count:
        sys.exit('patch does not fit %s: %r occurs %d times' % (path, old, s.count(old)))
    open(path, 'w').write(s.replace(old, new))

def dep(path):
    s = open(path).read()
    # tests, benches and examples are not copied
    s = re.sub(r'(?m)^\[\[(test|bench|example)\]\]\n(?:[^\[\n].*\n|\n)*', '', s)
    s += '\n[dependencies.dst_seam]\npath = "%s"\n' % os.path.join(ROOT, 'seam')
    open(path, 'w').write(s)

def tokio(d):
    dep(d + '/Cargo.toml')
    p = d + '/src/runtime/scheduler/current_thread/mod.rs'
    sub(p, '    fn next_task(&mut self, handle: &Handle) -> Option<Notified> {\n',
        '''    fn next_task(&mut self, handle: &Handle) -> Option<Notified> {
        if dst_seam::active() {
            while let Some(t) = handle.next_remote_task() {
                self.tasks.push_back(t);
            }
            if self.tasks.is_empty() {
                return None;
            }
            let ids: Vec<u64> = self.tasks.iter().map(|t| t.dst_id()).collect();
            let i = dst_seam::pick_task(&ids);
            return self.tasks.remove(i);
        }
''')
    # a second worker: run one other task in the middle of the current poll
    sub(p, '// ===== impl Context =====\n\nimpl Context {\n', '''// ===== impl Context =====

impl Context {
    pub(crate) fn dst_step(&self) -> bool {
        self.defer.wake();
        let Some(mut core) = self.core.borrow_mut().take() else {
            return false;
        };
        let Some(task) = core.next_task(&self.handle) else {
            *self.core.borrow_mut() = Some(core);
            return false;
        };
        let task = self.handle.shared.owned.assert_owner(task);
        let core = self.run_task(task, core);
        *self.core.borrow_mut() = Some(core);
        true
    }

''')
    sub(p, '''        if let Some(notified) = notified {
            me.schedule(notified);
        }

        handle
    }

    /// Spawn a task which isn't safe to send''', '''        if let Some(notified) = notified {
            me.schedule(notified);
            dst_seam::point("spawn");
        }

        handle
    }

    /// Spawn a task which isn't safe to send''')
    p = d + '/src/runtime/mod.rs'
    s = open(p).read()
    open(p, 'w').write(s + '''
/// Polls one runnable task of the current-thread runtime this is called from within, in the middle
/// of the poll that calls. False if there is none.
#[allow(missing_docs)]
pub fn dst_step() -> bool {
    context::with_scheduler(|cx| match cx {
        Some(scheduler::Context::CurrentThread(cx)) => cx.dst_step(),
        _ => false,
    })
}
''')
    p = d + '/src/runtime/task/join.rs'
    sub(p, '''    pub fn abort(&self) {
        self.raw.remote_abort();
    }''', '''    pub fn abort(&self) {
        dst_seam::point("abort");
        self.raw.remote_abort();
        dst_seam::point("abort");
    }''')
    p = d + '/src/runtime/task/mod.rs'
    sub(p, "impl<S: 'static> Notified<S> {\n    /// # Safety\n", '''impl<S: 'static> Notified<S> {
    pub(crate) fn dst_id(&self) -> u64 {
        // Safety: the header is valid as long as the reference exists
        unsafe { Header::get_id(self.0.header_ptr()) }.0.get()
    }

    /// # Safety
''')
    p = d + '/src/time/clock.rs'
    sub(p, '    pub async fn advance(duration: Duration) {', '''    pub fn dst_advance(duration: Duration) {
        with_clock(|maybe_clock| match maybe_clock {
            Some(clock) => clock.advance(duration),
            None => Ok(()),
        });
    }

    #[allow(missing_docs)]
    pub async fn advance(duration: Duration) {''')
    p = d + '/src/time/mod.rs'
    sub(p, 'pub use clock::{advance, pause, resume};', 'pub use clock::{advance, dst_advance, pause, resume};')
    p = d + '/src/loom/std/mod.rs'
    sub(p, '    pub(crate) fn seed() -> u64 {\n', '''    pub(crate) fn seed() -> u64 {
        if dst_seam::active() {
            return 0x9e37_79b9_7f4a_7c15;
        }
''')
    sub(d + '/src/lib.rs', '    missing_docs,\n', '', 1)

def futures_util(d):
    dep(d + '/Cargo.toml')
    sub(d + '/src/async_await/random.rs', 'fn gen_index(n: usize) -> usize {\n', '''fn gen_index(n: usize) -> usize {
    if dst_seam::active() {
        return dst_seam::choose("select", n);
    }
''')

def futures_channel(d):
    dep(d + '/Cargo.toml')
    p = d + '/src/mpsc/mod.rs'
    sub(p, '''    fn do_send_nb(&self, msg: T) -> Result<(), TrySendError<T>> {
        if let Some(inner) = &self.0 {
            if inner.inc_num_messages().is_some() {
                inner.queue_push_and_signal(msg);
                return Ok(());
            }
        }

        Err(TrySendError { err: SendError { kind: SendErrorKind::Disconnected }, val: msg })''', '''    fn do_send_nb(&self, msg: T) -> Result<(), TrySendError<T>> {
        dst_seam::point("send");
        if let Some(inner) = &self.0 {
            if inner.inc_num_messages().is_some() {
                inner.queue_push_and_signal(msg);
                dst_seam::point("sent");
                return Ok(());
            }
        }

        Err(TrySendError { err: SendError { kind: SendErrorKind::Disconnected }, val: msg })''')
    sub(p, '''        // Try to read a message off of the message queue.
        match self.next_message() {
            Poll::Ready(msg) => {
                if msg.is_none() {
                    self.inner = None;
                }
                Poll::Ready(msg)
            }
            Poll::Pending => {
                // There are no messages to read, in this case, park.
                self.inner.as_ref()''', '''        // Try to read a message off of the message queue.
        dst_seam::point("receive");
        match self.next_message() {
            Poll::Ready(msg) => {
                if msg.is_none() {
                    self.inner = None;
                }
                dst_seam::point("received");
                Poll::Ready(msg)
            }
            Poll::Pending => {
                // There are no messages to read, in this case, park.
                dst_seam::point("park");
                self.inner.as_ref()''', 2)
    sub(p, '''impl<T> Drop for UnboundedReceiver<T> {
    fn drop(&mut self) {
        // Drain the channel of all pending messages
        self.close();
''', '''impl<T> Drop for UnboundedReceiver<T> {
    fn drop(&mut self) {
        dst_seam::point("close");
        // Drain the channel of all pending messages
        self.close();
        dst_seam::point("closed");
''')

def inventory(d):
    dep(d + '/Cargo.toml')
    p = d + '/src/lib.rs'
    sub(p, '''    fn into_iter<T: Collect>() -> Iter<T> {
        let head = T::registry().head.load(Ordering::Acquire);
''', '''    extern crate std;

    fn into_iter<T: Collect>() -> Iter<T> {
        let head = T::registry().head.load(Ordering::Acquire);
        if dst_seam::active() {
            // the order in which the linker registered the items is the simulator's choice
            let mut nodes = std::vec::Vec::new();
            let mut cur: Option<&'static Node> = unsafe { head.as_ref() };
            while let Some(n) = cur {
                nodes.push(n);
                cur = unsafe { *n.next.get() };
            }
            let key = T::registry() as *const Registry as usize;
            let order = dst_seam::permutation(key, nodes.len());
            let nodes: std::vec::Vec<&'static Node> = order.into_iter().map(|i| nodes[i]).collect();
            return Iter {
                node: None,
                fixed: Some(nodes.into_iter()),
                marker: PhantomData,
            };
        }
''')
    sub(p, '''            node: unsafe { head.as_ref() },
            marker: PhantomData,''', '''            node: unsafe { head.as_ref() },
            fixed: None,
            marker: PhantomData,''')
    sub(p, '''        node: Option<&'static Node>,
        marker: PhantomData<T>,''', '''        node: Option<&'static Node>,
        fixed: Option<std::vec::IntoIter<&'static Node>>,
        marker: PhantomData<T>,''')
    sub(p, '''            let node = self.node?;
            unsafe {''', '''            if let Some(f) = &mut self.fixed {
                let node = f.next()?;
                return unsafe { Some(&*ptr::addr_of!(*node.value).cast::<T>()) };
            }
            let node = self.node?;
            unsafe {''')
    sub(p, '''                node: self.node,
                marker: PhantomData,''', '''                node: self.node,
                fixed: self.fixed.clone(),
                marker: PhantomData,''')

CRATES = {'tokio-1.54.1': tokio, 'futures-util-0.3.34': futures_util, 'futures-channel-0.3.34': futures_channel, 'inventory-0.3.25': inventory}

def main():
    stamp_src = hashlib.sha256(open(os.path.abspath(__file__), 'rb').read()).hexdigest()
    stamp = os.path.join(OUT, 'stamp')
    if os.path.exists(stamp) and open(stamp).read() == stamp_src:
        return
    for name, f in CRATES.items():
        d = os.path.join(OUT, name.rsplit('-', 1)[0])
        if os.path.isdir(d):
            shutil.rmtree(d)
        shutil.copytree(src(name), d, ignore=shutil.ignore_patterns('tests', 'benches', 'examples', '.cargo-ok', 'Cargo.lock'))
        f(d)
    open(stamp, 'w').write(stamp_src)

main()
