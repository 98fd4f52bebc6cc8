//! C11: bounded sequences never exceed their bound, never lose, reorder,
//! duplicate or double-drop elements, however they are built.

use mon::prng::{roomy, Rng};
use mon::rep::Ctx;
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};
use tedium::parse::ParseResult;
use tedium::seq::{fix::FixSeq, lim::LimSeq};
use tedium::*;

thread_local! {
    static LIVE: Cell<i64> = Cell::new(0);
    static DOUBLE: Cell<u64> = Cell::new(0);
}
fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// An element that notices being dropped twice or lost.
#[derive(Debug)]
struct Tr {
    id: u16,
    cookie: u32,
    heap: Box<u16>,
}
const ALIVE: u32 = 0xA11CE;
impl Tr {
    fn new(id: u16) -> Tr {
        LIVE.with(|l| l.set(l.get() + 1));
        Tr { id, cookie: ALIVE, heap: Box::new(id) }
    }
    fn ok(&self) -> bool {
        self.cookie == ALIVE && *self.heap == self.id
    }
}
impl Drop for Tr {
    fn drop(&mut self) {
        if self.cookie != ALIVE {
            DOUBLE.with(|d| d.set(d.get() + 1));
        }
        self.cookie = 0xDEAD;
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
impl Clone for Tr {
    fn clone(&self) -> Tr {
        Tr::new(self.id)
    }
}
impl PartialEq for Tr {
    fn eq(&self, o: &Tr) -> bool {
        self.id == o.id
    }
}
impl Eq for Tr {}
impl PartialOrd for Tr {
    fn partial_cmp(&self, o: &Tr) -> Option<std::cmp::Ordering> {
        Some(self.id.cmp(&o.id))
    }
}
impl Ord for Tr {
    fn cmp(&self, o: &Tr) -> std::cmp::Ordering {
        self.id.cmp(&o.id)
    }
}
impl Hash for Tr {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.id.hash(h)
    }
}
impl Encode for Tr {
    fn write_to<U: Target>(&self, buf: &mut U) -> usize {
        self.id.write_to(buf)
    }
}
impl Decode for Tr {
    fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
        Ok(Tr::new(u16::parse(p)?))
    }
}
impl tedium::conv::len::Estimable for Tr {
    const KNOWN: Option<usize> = Some(2);
    fn unknown(&self) -> usize {
        unreachable!()
    }
}

/// element types the histories run over
trait Elem: Clone + PartialEq + PartialOrd + Hash + std::fmt::Debug + Encode + Decode {
    const W: usize;
    fn mk(id: u16) -> Self;
    fn id(&self) -> u16;
    fn sane(&self) -> bool;
    fn bytes(id: u16) -> Vec<u8>;
}
impl Elem for Tr {
    const W: usize = 2;
    fn mk(id: u16) -> Self {
        Tr::new(id)
    }
    fn id(&self) -> u16 {
        self.id
    }
    fn sane(&self) -> bool {
        self.ok()
    }
    fn bytes(id: u16) -> Vec<u8> {
        id.to_be_bytes().to_vec()
    }
}
impl Elem for u8 {
    const W: usize = 1;
    fn mk(id: u16) -> Self {
        id as u8
    }
    fn id(&self) -> u16 {
        *self as u16
    }
    fn sane(&self) -> bool {
        true
    }
    fn bytes(id: u16) -> Vec<u8> {
        vec![id as u8]
    }
}
impl Elem for Dynamic<u8, String> {
    const W: usize = 2;
    fn mk(id: u16) -> Self {
        Dynamic::new(((id as u8 % 26 + b'a') as char).to_string())
    }
    fn id(&self) -> u16 {
        (self.clone().into_inner().as_bytes()[0] - b'a') as u16
    }
    fn sane(&self) -> bool {
        self.clone().into_inner().len() == 1
    }
    fn bytes(id: u16) -> Vec<u8> {
        vec![1, id as u8 % 26 + b'a']
    }
}
fn norm<T: Elem>(id: u16) -> u16 {
    T::mk(id).id()
}

trait Seq<T: Elem>: Clone + PartialEq + PartialOrd + Hash + std::fmt::Debug + Encode + Decode + Default + std::ops::DerefMut<Target = [T]> + IntoIterator<Item = T> + std::iter::FromIterator<T> + Extend<T> {
    const NAME: &'static str;
    const BOUND: usize;
    const EXACT: bool;
    fn fresh() -> Self;
    fn from_slice(v: &[T]) -> Result<Self, String>;
    fn from_v(v: Vec<T>) -> Result<Self, String>;
    /// the panicking constructor, where there is one
    fn force(v: Vec<T>) -> Option<Self>;
    fn into_v(self, way: usize) -> Vec<T>;
    fn ref_ids(&self) -> Vec<u16>;
}
impl<T: Elem, const N: usize> Seq<T> for FixSeq<T, { N }> {
    const NAME: &'static str = "FixSeq";
    const BOUND: usize = N;
    const EXACT: bool = true;
    fn fresh() -> Self {
        FixSeq::new()
    }
    fn from_slice(v: &[T]) -> Result<Self, String> {
        Self::try_from(v).map_err(|e| e.to_string())
    }
    fn from_v(v: Vec<T>) -> Result<Self, String> {
        Self::try_from(v).map_err(|e| e.to_string())
    }
    fn force(_: Vec<T>) -> Option<Self> {
        None
    }
    fn into_v(self, way: usize) -> Vec<T> {
        if way == 0 {
            self.into()
        } else {
            self.into_iter().collect()
        }
    }
    fn ref_ids(&self) -> Vec<u16> {
        self.into_iter().map(|x| x.id()).collect()
    }
}
impl<T: Elem, const N: usize> Seq<T> for LimSeq<T, { N }> {
    const NAME: &'static str = "LimSeq";
    const BOUND: usize = N;
    const EXACT: bool = false;
    fn fresh() -> Self {
        LimSeq::new()
    }
    fn from_slice(v: &[T]) -> Result<Self, String> {
        Self::try_from(v).map_err(|e| e.to_string())
    }
    fn from_v(v: Vec<T>) -> Result<Self, String> {
        Self::try_from(v).map_err(|e| e.to_string())
    }
    fn force(v: Vec<T>) -> Option<Self> {
        Some(LimSeq::from_vec(v))
    }
    fn into_v(self, way: usize) -> Vec<T> {
        match way {
            0 => self.into(),
            1 => self.into_vec(),
            _ => self.into_iter().collect(),
        }
    }
    fn ref_ids(&self) -> Vec<u16> {
        self.into_iter().map(|x| x.id()).collect()
    }
}

/// An iterator over fresh elements whose size hint is exact, absent or merely
/// a lower or upper bound, as real iterators' are.
struct Src<T> {
    ids: Vec<u16>,
    at: usize,
    hint: u8,
    endless: bool,
    _t: std::marker::PhantomData<T>,
}
fn src<T: Elem>(r: &mut Rng, ids: &[u16], endless: bool) -> Src<T> {
    Src { ids: ids.to_vec(), at: 0, hint: r.below(6) as u8, endless, _t: std::marker::PhantomData }
}
impl<T: Elem> Iterator for Src<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.at < self.ids.len() {
            self.at += 1;
            Some(T::mk(self.ids[self.at - 1]))
        } else if self.endless {
            assert!(self.at < 200_000, "unbounded source drained without end");
            self.at += 1;
            Some(T::mk(0))
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.ids.len() - self.at.min(self.ids.len());
        if self.endless {
            return if self.hint & 1 == 0 { (usize::MAX, None) } else { (0, None) };
        }
        match self.hint {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n / 2, None),
            3 => (n, Some(usize::MAX)),
            4 => (0, Some(n)),
            _ => (0, Some(n.saturating_mul(2))),
        }
    }
}

fn hash_of<H: Hash + ?Sized>(x: &H) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// every observer of `s` must agree with the list `m`
fn observe<T: Elem, S: Seq<T>>(c: &mut Ctx, s: &S, m: &[u16], what: &str) {
    let sig = |k: &str| format!("{}/{}/{}", S::NAME, what.split_whitespace().next().unwrap_or(""), k);
    let det = |c: &mut Ctx, k: &str, got: String| c.violation(sig(k), format!("{}<{}> after {what}: got {got}, expected {m:?}", S::NAME, S::BOUND));
    let ids: Vec<u16> = s.iter().map(|x| x.id()).collect();
    if ids != m {
        det(c, "content", format!("{ids:?}"));
        return;
    }
    if !s.iter().all(|x| x.sane()) {
        det(c, "element", "an element that was dropped or never initialised".into());
    }
    if s.len() != m.len() || s.is_empty() != m.is_empty() {
        det(c, "len", format!("len {}", s.len()));
    }
    if s.len() > S::BOUND {
        det(c, "bound", format!("{} elements over a bound of {}", s.len(), S::BOUND));
    }
    if s.ref_ids() != m {
        det(c, "iter", format!("{:?}", s.ref_ids()));
    }
    for i in 0..m.len() {
        if s[i].id() != m[i] || s.get(i).map(|x| x.id()) != Some(m[i]) {
            det(c, "index", format!("[{i}] = {}", s[i].id()));
        }
    }
    if s.get(m.len()).is_some() {
        det(c, "index", "an element past the end".into());
    }
    c.count("states observed", 1);
}

fn ids(r: &mut Rng, n: usize) -> Vec<u16> {
    (0..n).map(|_| if r.chance(1, 3) { *r.pick(&[0u16, 1, 255, 256, 65535]) } else { r.u64() as u16 }).collect()
}
/// counts around the bound
fn count(r: &mut Rng, bound: usize, have: usize) -> usize {
    let room = bound - have.min(bound);
    if bound > 1000 && r.chance(1, 2) {
        // of the large bounds, the low bits alone
        return r.range(0, 3) + *r.pick(&[0usize, bound & 0xff, bound & 0xffff, 256, 65536]).min(&room);
    }
    if r.chance(1, 300) {
        return *r.pick(&[0, room]) + if r.chance(1, 3) { *r.pick(&[256usize, 65536, 1 << 17]) + r.below(bound.min(200) + 2) } else { r.large().min(140_000) };
    }
    match r.below(7) {
        0 => room,
        1 => room + 1,
        2 => room.saturating_sub(1),
        3 => 0,
        4 => room * 2 + 3,
        _ => r.range(0, room + 2),
    }
}

fn history<T: Elem, S: Seq<T>>(c: &mut Ctx, r: &mut Rng) {
    let base = live();
    DOUBLE.with(|d| d.set(0));
    {
        let mut m: Vec<u16> = vec![];
        let n = count(r, S::BOUND, 0);
        let give: Vec<u16> = ids(r, n).into_iter().map(norm::<T>).collect();
        let fits = n <= S::BOUND;
        let way = r.below(7);
        let wname = ["new", "default", "collect", "try_from-slice", "try_from-vec", "from_vec", "decode"][way];
        let what = format!("{wname} of {n}");
        let sg = |k: &str| format!("{}/{wname}/{k}", S::NAME);
        c.count(&format!("built by {wname}"), 1);
        let made: Option<S> = match way {
            0 => Some(S::fresh()),
            1 => Some(S::default()),
            2 => {
                let endless = r.chance(1, 12);
                let it = src::<T>(r, &give, endless);
                let g = c.guard(|| it.collect::<S>());
                match g {
                    Ok(s) => {
                        if !fits || endless {
                            c.violation(sg("accepts-too-many"), format!("{}<{}> {what}{}: held {}", S::NAME, S::BOUND, if endless { "+endless" } else { "" }, s.len()));
                            None
                        } else {
                            m = give.clone();
                            Some(s)
                        }
                    }
                    Err(p) => {
                        c.check(!fits || endless, || sg("refuses-fitting"), || format!("{}<{}> {what}: panicked {}", S::NAME, S::BOUND, p.0));
                        c.count("refusals observed", 1);
                        None
                    }
                }
            }
            3 | 4 => {
                let v: Vec<T> = give.iter().map(|i| T::mk(*i)).collect();
                let g = if way == 3 { c.guard(|| S::from_slice(&v)) } else { c.guard(|| S::from_v(roomy(&v, way))) };
                // a source shorter than an exact bound may be refused or taken as it is
                let may_refuse = !fits || (S::EXACT && n != S::BOUND);
                match g {
                    Ok(Ok(s)) => {
                        if !fits {
                            c.violation(sg("accepts-too-many"), format!("{}<{}> {what}: held {}", S::NAME, S::BOUND, s.len()));
                            None
                        } else {
                            m = give.clone();
                            Some(s)
                        }
                    }
                    Ok(Err(e)) => {
                        c.check(may_refuse, || sg("refuses-fitting"), || format!("{}<{}> {what}: {e}", S::NAME, S::BOUND));
                        c.count("refusals observed", 1);
                        None
                    }
                    Err(p) => {
                        c.violation(sg("panic"), format!("{}<{}> {what}: {}", S::NAME, S::BOUND, p.0));
                        None
                    }
                }
            }
            5 => {
                let v: Vec<T> = give.iter().map(|i| T::mk(*i)).collect();
                match c.guard(|| S::force(v)) {
                    Ok(Some(s)) => {
                        if !fits {
                            c.violation(sg("accepts-too-many"), format!("{}<{}> {what}: held {}", S::NAME, S::BOUND, s.len()));
                            None
                        } else {
                            m = give.clone();
                            Some(s)
                        }
                    }
                    Ok(None) => Some(S::fresh()),
                    Err(p) => {
                        c.check(!fits, || sg("refuses-fitting"), || format!("{}<{}> {what}: panicked {}", S::NAME, S::BOUND, p.0));
                        c.count("refusals observed", 1);
                        None
                    }
                }
            }
            _ => {
                let mut b: Vec<u8> = give.iter().flat_map(|i| T::bytes(*i)).collect();
                let ragged = T::W > 1 && r.chance(1, 5);
                if ragged {
                    b.push(1);
                }
                let which = r.below(3);
                let g = c.guard(|| {
                    let p0 = mon::ops::KINDS[which];
                    let mut p = mon::ops::AnyP::new(p0, &b);
                    let s = S::parse(&mut p);
                    (s.map_err(|e| e.to_string()), p.remainder())
                });
                match g {
                    Ok((Ok(s), left)) => {
                        let want = if S::EXACT { S::BOUND } else { n };
                        let exp_left = b.len() - want.min(n) * T::W;
                        if s.len() > S::BOUND || (S::EXACT && s.len() != S::BOUND) {
                            c.violation(sg("count"), format!("{}<{}> decoded {} elements from {n}", S::NAME, S::BOUND, s.len()));
                            None
                        } else if (S::EXACT && n < S::BOUND) || (!S::EXACT && (!fits || ragged)) {
                            c.violation(sg("accepts-wrong-count"), format!("{}<{}> decoded {} elements from {n} (ragged {ragged})", S::NAME, S::BOUND, s.len()));
                            None
                        } else {
                            c.check(left == exp_left, || sg("remainder"), || format!("{}<{}> from {n}: {left} left, expected {exp_left}", S::NAME, S::BOUND));
                            m = give[..want].to_vec();
                            Some(s)
                        }
                    }
                    Ok((Err(e), _)) => {
                        let must = if S::EXACT { n >= S::BOUND } else { fits && !ragged };
                        c.check(!must, || sg("refuses-exact"), || format!("{}<{}> decode of {n}: {e}", S::NAME, S::BOUND));
                        c.count("refusals observed", 1);
                        None
                    }
                    Err(p) => {
                        c.violation(sg("panic"), format!("{}<{}> decode of {n}: {}", S::NAME, S::BOUND, p.0));
                        None
                    }
                }
            }
        };
        c.seen(format!("{}/{}/{}/{wname}/{n}/{}", S::NAME, S::BOUND, T::W, made.is_some()).as_bytes());
        if let Some(mut s) = made {
            observe(c, &s, &m, &what);
            for step in 0..r.range(0, 6) {
                let op = r.below(9);
                c.count(&format!("operation {}", ["extend", "write", "reorder", "clone", "encode", "compare", "iter_mut", "clear-by-take", "clone_from"][op]), 1);
                match op {
                    0 => {
                        let k = count(r, S::BOUND, m.len());
                        let add: Vec<u16> = ids(r, k).into_iter().map(norm::<T>).collect();
                        let endless = r.chance(1, 12);
                        let fits = m.len() + k <= S::BOUND && !endless;
                        let it = src::<T>(r, &add, endless);
                        let what = format!("extend by {k} from {} (step {step})", m.len());
                        match c.guard(|| s.extend(it)) {
                            Ok(()) => {
                                if !fits {
                                    c.violation(format!("{}/extend/accepts-too-many", S::NAME), format!("{}<{}> {what}: held {}", S::NAME, S::BOUND, s.len()));
                                    return;
                                }
                                m.extend(&add);
                            }
                            Err(p) => {
                                c.check(!fits, || format!("{}/extend/refuses-fitting", S::NAME), || format!("{}<{}> {what}: {}", S::NAME, S::BOUND, p.0));
                                c.count("refusals observed", 1);
                                // what was there stays; what got in is a prefix of what was offered
                                let now: Vec<u16> = s.iter().map(|x| x.id()).collect();
                                let mut all = m.clone();
                                all.extend(&add);
                                all.resize(all.len() + S::BOUND + 1, norm::<T>(0));
                                if now.len() > S::BOUND || now.len() < m.len() || now[..] != all[..now.len()] {
                                    c.violation(format!("{}/extend/after-refusal", S::NAME), format!("{}<{}> {what}: {now:?} from {m:?} + {add:?}", S::NAME, S::BOUND));
                                    return;
                                }
                                m = now;
                            }
                        }
                        c.seen(format!("{}/{}/{}/x/{}/{k}/{endless}", S::NAME, S::BOUND, T::W, m.len()).as_bytes());
                        observe(c, &s, &m, &what);
                    }
                    1 => {
                        if !m.is_empty() {
                            let i = r.below(m.len());
                            let v = norm::<T>(r.u64() as u16);
                            s[i] = T::mk(v);
                            m[i] = v;
                            observe(c, &s, &m, "write");
                        }
                    }
                    2 => {
                        s.reverse();
                        m.reverse();
                        if m.len() > 1 {
                            let k = r.below(m.len());
                            s.rotate_left(k);
                            m.rotate_left(k);
                        }
                        observe(c, &s, &m, "reorder");
                    }
                    3 => {
                        let mut t = s.clone();
                        observe(c, &t, &m, "clone");
                        c.check(t == s, || format!("{}/clone/ne", S::NAME), || format!("{m:?}"));
                        if !m.is_empty() {
                            t[0] = T::mk(m[0].wrapping_add(1));
                            observe(c, &s, &m, "clone-write");
                        }
                        if r.chance(1, 2) {
                            let way = r.below(3);
                            let back: Vec<u16> = s.clone().into_v(way).iter().map(|x| x.id()).collect();
                            c.check(back == m, || format!("{}/into-vec/content", S::NAME), || format!("way {way}: {back:?} vs {m:?}"));
                        }
                    }
                    4 => {
                        let want: Vec<u8> = m.iter().flat_map(|i| T::bytes(*i)).collect();
                        let g = c.guard(|| {
                            let b: Vec<u8> = Encode::to_bytes(&s);
                            b
                        });
                        match g {
                            Ok(b) => {
                                c.check(b == want, || format!("{}/encode/bytes", S::NAME), || format!("{b:02x?} vs {want:02x?}"));
                                c.check(!S::EXACT || m.len() == S::BOUND, || format!("{}/encode/undersaturated", S::NAME), || format!("{} of {} encoded", m.len(), S::BOUND));
                            }
                            Err(p) => c.check(S::EXACT && m.len() != S::BOUND, || format!("{}/encode/panic", S::NAME), || p.0.clone()),
                        }
                    }
                    5 => {
                        // equality, order and hash are those of the list
                        let mut o = m.clone();
                        if !o.is_empty() && r.chance(1, 2) {
                            let i = r.below(o.len());
                            o[i] = norm::<T>(r.u64() as u16);
                        }
                        if r.chance(1, 4) {
                            o.pop();
                        }
                        let ov: Vec<T> = o.iter().map(|i| T::mk(*i)).collect();
                        let t: S = ov.iter().cloned().collect();
                        let sv: Vec<T> = m.iter().map(|i| T::mk(*i)).collect();
                        c.check((s == t) == (o == m), || format!("{}/eq", S::NAME), || format!("{m:?} {o:?}"));
                        c.check(s.partial_cmp(&t) == sv.partial_cmp(&ov), || format!("{}/ord", S::NAME), || format!("{m:?} {o:?}"));
                        if o == m {
                            c.check(hash_of(&s) == hash_of(&t), || format!("{}/hash", S::NAME), || format!("{m:?}"));
                        }
                    }
                    6 => {
                        for (x, i) in s.iter_mut().zip(m.iter_mut()) {
                            let v = norm::<T>(i.wrapping_mul(3).wrapping_add(1));
                            *x = T::mk(v);
                            *i = v;
                        }
                        observe(c, &s, &m, "iter_mut");
                    }
                    7 => {
                        let old = std::mem::take(&mut s);
                        observe(c, &old, &m, "take-old");
                        if r.chance(1, 2) {
                            // partly consumed owning iterator: the rest must be dropped exactly once
                            let k = r.range(0, m.len());
                            let got: Vec<u16> = old.into_iter().take(k).map(|x| x.id()).collect();
                            c.check(got == m[..k], || format!("{}/into_iter/prefix", S::NAME), || format!("{got:?}"));
                        }
                        m.clear();
                        observe(c, &s, &m, "take-new");
                    }
                    _ => {
                        let k = r.range(0, S::BOUND);
                        let add: Vec<u16> = ids(r, k).into_iter().map(norm::<T>).collect();
                        let t: S = add.iter().map(|i| T::mk(*i)).collect();
                        s.clone_from(&t);
                        m = add;
                        observe(c, &s, &m, "clone_from");
                    }
                }
            }
            c.sample(|| format!("{}<{}> {what}: final {:?}", S::NAME, S::BOUND, m));
        }
    }
    let d = DOUBLE.with(|d| d.get());
    c.check(d == 0, || format!("{}/double-drop", S::NAME), || format!("{d} elements dropped twice"));
    let l = live() - base;
    c.check(l == 0, || format!("{}/lost", S::NAME), || format!("{l} elements never dropped or dropped too often"));
}

/// the unbounded sequence: a plain list
fn sequence(c: &mut Ctx, r: &mut Rng) {
    let base = live();
    {
        let n = if r.chance(1, 500) { r.large().min(70_000) } else { r.size(40) };
        let mut m = ids(r, n);
        let way = r.below(5);
        let mut s: Sequence<Tr> = match way {
            0 => Sequence::from_vec(m.iter().map(|i| Tr::mk(*i)).collect()),
            1 => Sequence::from(m.iter().map(|i| Tr::mk(*i)).collect::<Vec<_>>()),
            2 => src::<Tr>(r, &m, false).collect(),
            3 => {
                let b: Vec<u8> = m.iter().flat_map(|i| Tr::bytes(*i)).collect();
                let kind = mon::ops::KINDS[r.below(3)];
                match c.guard(|| Sequence::parse(&mut mon::ops::AnyP::new(kind, &b))) {
                    Ok(Ok(s)) => s,
                    Ok(Err(e)) => return c.violation("Sequence/decode", e.to_string()),
                    Err(p) => return c.violation("Sequence/decode/panic", p.0),
                }
            }
            _ => {
                m.clear();
                if r.chance(1, 2) { Sequence::new() } else { Sequence::default() }
            }
        };
        for _ in 0..r.range(0, 4) {
            match r.below(4) {
                0 => {
                    let k = if r.chance(1, 1000) { r.large().min(70_000) } else { r.size(20) };
                    let add = ids(r, k);
                    s.extend(src::<Tr>(r, &add, false));
                    m.extend(&add);
                }
                1 => {
                    s.reverse();
                    m.reverse();
                }
                2 => {
                    match r.below(3) {
                        0 => (&mut s).into_iter().for_each(|x| *x = Tr::mk(x.id ^ 1)),
                        1 => AsMut::<[Tr]>::as_mut(&mut s).iter_mut().for_each(|x| *x = Tr::mk(x.id ^ 1)),
                        _ => s.iter_mut().for_each(|x| *x = Tr::mk(x.id ^ 1)),
                    }
                    for x in &mut m {
                        *x ^= 1;
                    }
                }
                _ => {
                    if !m.is_empty() {
                        let i = r.below(m.len());
                        s.as_mut_slice()[i] = Tr::mk(9);
                        m[i] = 9;
                    }
                }
            }
            let l: Vec<u16> = (&s).into_iter().map(|x| x.id).collect();
            c.check(l == m && s.len() == m.len() && s.as_slice().len() == m.len() && s.as_ref().len() == m.len(), || "Sequence/content".into(), || format!("{l:?} vs {m:?}"));
            if !m.is_empty() {
                let i = r.below(m.len());
                c.check(s[i].id == m[i] && s[i..].len() == m.len() - i && s[..=i].len() == i + 1, || "Sequence/index".into(), || format!("{i}"));
            }
        }
        c.seen(format!("S/{way}/{m:?}").as_bytes());
        let b: Vec<u8> = Encode::to_bytes(&s);
        c.check(b == m.iter().flat_map(|i| Tr::bytes(*i)).collect::<Vec<u8>>(), || "Sequence/encode".into(), || format!("{m:?}"));
        let v: Vec<Tr> = match r.below(3) {
            0 => s.into(),
            1 => s.into_inner(),
            _ => s.into_iter().collect(),
        };
        c.check(v.iter().map(|x| x.id).collect::<Vec<_>>() == m, || "Sequence/into".into(), || format!("{m:?}"));
    }
    {
        let k = r.below(5);
        let x = r.u64() as u16;
        let y = r.u64() as u16;
        let all: Vec<Vec<u16>> = vec![tedium::seq!(x; k).into_inner(), tedium::seq!(x, y).into_inner(), tedium::seq!(x, y, x,).into(), { let e: Sequence<u16> = tedium::seq!(); e.into() }];
        c.check(all == [vec![x; k], vec![x, y], vec![x, y, x], vec![]], || "Sequence/seq!".into(), || format!("{x} {y} {k}: {all:?}"));
        let (p, q) = (Sequence::from(vec![x, y]), Sequence::from(vec![y, x]));
        c.check((p == q) == (x == y) && p.cmp(&q) == x.cmp(&y) && p.partial_cmp(&q) == Some(x.cmp(&y)) && p.clone() == p, || "Sequence/order".into(), || format!("{x} {y}"));
    }
    let l = live() - base;
    c.check(l == 0, || "Sequence/lost".into(), || format!("{l}"));
}

fn main() {
    let mut c = Ctx::from_args("C11");
    let n = c.n(4_000, 60_000);
    macro_rules! go {
        ($($n:literal)+) => {$(
            c.cases(concat!("fix-tracked-", $n), n, |c, r| history::<Tr, FixSeq<Tr, $n>>(c, r));
            c.cases(concat!("lim-tracked-", $n), n, |c, r| history::<Tr, LimSeq<Tr, $n>>(c, r));
            c.cases(concat!("fix-u8-", $n), n / 2, |c, r| history::<u8, FixSeq<u8, $n>>(c, r));
            c.cases(concat!("lim-u8-", $n), n / 2, |c, r| history::<u8, LimSeq<u8, $n>>(c, r));
            c.cases(concat!("fix-dyn-", $n), n / 2, |c, r| history::<Dynamic<u8, String>, FixSeq<Dynamic<u8, String>, $n>>(c, r));
            c.cases(concat!("lim-dyn-", $n), n / 2, |c, r| history::<Dynamic<u8, String>, LimSeq<Dynamic<u8, String>, $n>>(c, r));
        )+};
    }
    go!(0 1 2 3 5 8 17 64 300);
    c.cases("lim-u8-65540", n / 60, |c, r| history::<u8, LimSeq<u8, 65540>>(c, r));
    c.cases("fix-u8-65540", n / 60, |c, r| history::<u8, FixSeq<u8, 65540>>(c, r));
    c.cases("lim-u8-4097", n / 30, |c, r| history::<u8, LimSeq<u8, 4097>>(c, r));
    c.cases("fix-u8-4097", n / 30, |c, r| history::<u8, FixSeq<u8, 4097>>(c, r));
    macro_rules! edge {
        ($($b:literal)+) => {$(
            c.cases(concat!("lim-u8-", $b), n / 60, |c, r| history::<u8, LimSeq<u8, $b>>(c, r));
            c.cases(concat!("fix-u8-", $b), n / 60, |c, r| history::<u8, FixSeq<u8, $b>>(c, r));
        )+};
    }
    edge!(127 128 255 256 257 1023 1024 4095 4096 32767 32768 65535 65536);
    c.cases("sequence", n * 4, sequence);
    c.finish()
}
