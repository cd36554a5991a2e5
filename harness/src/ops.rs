//! Operations are plain data: a kind and six numbers. Numbers are interpreted modulo whatever the
//! current state offers, so any sequence of operations is a valid history; that is what makes
//! shrinking by deletion sound.

macro_rules! kinds {
    ($($n:ident),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
        #[allow(clippy::upper_case_acronyms)]
        pub enum K { $($n),* }
        pub const ALL: &[K] = &[$(K::$n),*];
        impl K {
            pub fn name(self) -> &'static str { match self { $(K::$n => stringify!($n)),* } }
            pub fn parse(s: &str) -> Option<K> { match s { $(stringify!($n) => Some(K::$n),)* _ => None } }
        }
    };
}
kinds!(
    New, Create, Within, Destroy, DestroyDead, Write, Probe, Sweep, IterDestroy, Clone, DropWorld,
    TakeDirect, ProbeDirect, ClearEvents, Fill, Burst, Mass, Move, Iter, Events, Churn, Forge,
    ForgeDirect, PanicClosure, PanicClone, PanicDrop, Preset, Nest, Conv, BadCap, Unborrowed, Big, Jump, Surge, PanicInto,
);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Op {
    pub k: K,
    pub a: [u32; 6],
}

#[derive(Clone, Debug)]
pub struct Case {
    pub world: String,
    pub ops: Vec<Op>,
}

impl Case {
    pub fn text(&self) -> String {
        let mut s = format!("world {}\n", self.world);
        for o in &self.ops {
            s += &format!("{} {}\n", o.k.name(), o.a.map(|x| x.to_string()).join(" "));
        }
        s
    }
    pub fn parse(text: &str) -> Option<Case> {
        let mut c = Case { world: String::new(), ops: Vec::new() };
        for line in text.lines() {
            let line = line.split('#').next().unwrap().trim();
            let mut w = line.split_whitespace();
            let Some(head) = w.next() else { continue };
            if head == "world" {
                c.world = w.next()?.to_string();
                continue;
            }
            let k = K::parse(head)?;
            let mut a = [0u32; 6];
            for x in a.iter_mut() {
                if let Some(v) = w.next() {
                    *x = v.parse().ok()?;
                }
            }
            c.ops.push(Op { k, a });
        }
        Some(c)
    }
}

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(a: u64, b: u64) -> Rng {
        let mut r = Rng(a.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ b.wrapping_mul(0xD1B5_4A32_D192_ED03));
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.next() % (den as u64) < num as u64
    }
    pub fn u32(&mut self) -> u32 {
        self.next() as u32
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}
