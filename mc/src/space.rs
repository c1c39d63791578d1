//! Finite, indexable spaces of input texts.

pub trait Inputs {
    fn len(&self) -> u64;
    /// The text of index `i`; `false` if this index denotes no input (a hole in the numbering).
    fn get(&self, i: u64, out: &mut String) -> bool;
    fn describe(&self) -> String;
}

/// All sequences of `min..=max` tokens over an alphabet, shortest first, each wrapped in a
/// fixed prefix and suffix.
pub struct Seq {
    pub name: String,
    pub alpha: Vec<String>,
    pub min: usize,
    pub max: usize,
    pub prefix: String,
    pub suffix: String,
}
impl Seq {
    pub fn new(name: &str, alpha: &[&str], min: usize, max: usize) -> Seq {
        Seq {
            name: name.into(),
            alpha: alpha.iter().map(|s| s.to_string()).collect(),
            min,
            max,
            prefix: String::new(),
            suffix: String::new(),
        }
    }
    pub fn wrap(mut self, p: &str, s: &str) -> Seq {
        self.prefix = p.into();
        self.suffix = s.into();
        self
    }
}
impl Inputs for Seq {
    fn len(&self) -> u64 {
        let k = self.alpha.len() as u64;
        (self.min..=self.max).map(|l| k.pow(l as u32)).sum()
    }
    fn get(&self, mut i: u64, out: &mut String) -> bool {
        out.clear();
        out.push_str(&self.prefix);
        let k = self.alpha.len() as u64;
        let mut l = self.min;
        loop {
            let n = k.pow(l as u32);
            if i < n {
                break;
            }
            i -= n;
            l += 1;
        }
        // most significant first
        let mut div = k.pow(l as u32);
        for _ in 0..l {
            div /= k;
            out.push_str(&self.alpha[(i / div) as usize]);
            i %= div;
        }
        out.push_str(&self.suffix);
        true
    }
    fn describe(&self) -> String {
        format!(
            "{}: all sequences of {} to {} tokens over {:?}{}",
            self.name,
            self.min,
            self.max,
            self.alpha,
            if self.prefix.is_empty() && self.suffix.is_empty() {
                String::new()
            } else {
                format!(" between {:?} and {:?}", self.prefix, self.suffix)
            }
        )
    }
}

/// Slots filled independently from their own alternatives: the full product.
pub struct Product {
    pub name: String,
    pub slots: Vec<Vec<String>>,
}
impl Product {
    pub fn new(name: &str, slots: &[&[&str]]) -> Product {
        Product {
            name: name.into(),
            slots: slots.iter().map(|s| s.iter().map(|x| x.to_string()).collect()).collect(),
        }
    }
}
impl Inputs for Product {
    fn len(&self) -> u64 {
        self.slots.iter().map(|s| s.len() as u64).product()
    }
    fn get(&self, mut i: u64, out: &mut String) -> bool {
        out.clear();
        let mut div = self.len();
        for s in &self.slots {
            div /= s.len() as u64;
            out.push_str(&s[(i / div) as usize]);
            i %= div;
        }
        true
    }
    fn describe(&self) -> String {
        format!("{}: product of {:?}", self.name, self.slots)
    }
}

/// Every inner text in every context: `(before, after)`.
pub struct InContexts {
    pub name: String,
    pub contexts: Vec<(String, String)>,
    pub inner: Box<dyn Inputs>,
}
impl InContexts {
    pub fn new(name: &str, contexts: &[(&str, &str)], inner: impl Inputs + 'static) -> InContexts {
        InContexts {
            name: name.into(),
            contexts: contexts.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(),
            inner: Box::new(inner),
        }
    }
}
impl Inputs for InContexts {
    fn len(&self) -> u64 {
        self.contexts.len() as u64 * self.inner.len()
    }
    fn get(&self, i: u64, out: &mut String) -> bool {
        let n = self.contexts.len() as u64;
        let (a, b) = &self.contexts[(i % n) as usize];
        let ok = self.inner.get(i / n, out);
        out.insert_str(0, a);
        out.push_str(b);
        ok
    }
    fn describe(&self) -> String {
        format!("{}: in each of the contexts {:?}: {}", self.name, self.contexts, self.inner.describe())
    }
}

/// An explicit list (ladders of lengths, depths and widths).
pub struct List {
    pub name: String,
    pub items: Vec<String>,
}
impl Inputs for List {
    fn len(&self) -> u64 {
        self.items.len() as u64
    }
    fn get(&self, i: u64, out: &mut String) -> bool {
        out.clear();
        out.push_str(&self.items[i as usize]);
        true
    }
    fn describe(&self) -> String {
        format!("{}: {} listed texts", self.name, self.items.len())
    }
}

/// Every text obtained from a seed document by at most one edit.
pub struct Edits {
    pub name: String,
    pub docs: Vec<String>,
    pub tokens: Vec<String>,
    /// number of edits: 0, 1 or 2
    pub depth: u32,
    starts: Vec<u64>,
}
impl Edits {
    pub fn new(name: &str, docs: Vec<String>, tokens: &[&str], depth: u32) -> Edits {
        let mut e = Edits {
            name: name.into(),
            docs,
            tokens: tokens.iter().map(|s| s.to_string()).collect(),
            depth,
            starts: vec![],
        };
        let mut at = 0;
        for d in &e.docs {
            e.starts.push(at);
            at += e.count(d);
        }
        e.starts.push(at);
        e
    }
    fn maxtok(&self) -> usize {
        self.tokens.iter().map(|t| t.chars().count()).max().unwrap_or(0)
    }
    fn ops(&self, n: usize, lines: usize) -> u64 {
        let t = self.tokens.len();
        // none, delete, insert, replace, truncate, drop head, 6 line edits
        (1 + n + (n + 1) * t + n * t + n + n + 6 * lines) as u64
    }
    fn count(&self, d: &str) -> u64 {
        let n = d.chars().count();
        let l = d.matches('\n').count() + 1;
        match self.depth {
            0 => 1,
            1 => self.ops(n, l),
            _ => self.ops(n, l) * self.ops(2 * n + self.maxtok(), 2 * l + 1),
        }
    }
    fn apply(&self, s: &str, mut op: u64) -> Option<String> {
        let idx: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
        let n = (idx.len() - 1) as u64;
        let t = self.tokens.len() as u64;
        if op == 0 {
            return Some(s.to_string());
        }
        op -= 1;
        if op < n {
            let (a, b) = (idx[op as usize], idx[op as usize + 1]);
            return Some(format!("{}{}", &s[..a], &s[b..]));
        }
        op -= n;
        if op < (n + 1) * t {
            let a = idx[(op / t) as usize];
            return Some(format!("{}{}{}", &s[..a], self.tokens[(op % t) as usize], &s[a..]));
        }
        op -= (n + 1) * t;
        if op < n * t {
            let (a, b) = (idx[(op / t) as usize], idx[(op / t) as usize + 1]);
            return Some(format!("{}{}{}", &s[..a], self.tokens[(op % t) as usize], &s[b..]));
        }
        op -= n * t;
        if op < n {
            return Some(s[..idx[op as usize]].to_string());
        }
        op -= n;
        if op < n {
            return Some(s[idx[op as usize]..].to_string());
        }
        op -= n;
        let lines: Vec<&str> = s.split('\n').collect();
        let l = (op / 6) as usize;
        if l >= lines.len() {
            return None;
        }
        let mut v: Vec<String> = lines.iter().map(|x| x.to_string()).collect();
        match op % 6 {
            0 => {
                v.remove(l);
            }
            1 => v.insert(l, lines[l].to_string()),
            2 => v[l].insert(0, ' '),
            3 => v[l].insert_str(0, "  "),
            4 => {
                if !v[l].starts_with(' ') {
                    return None;
                }
                v[l].remove(0);
            }
            _ => {
                if l + 1 >= v.len() {
                    return None;
                }
                v.swap(l, l + 1);
            }
        }
        Some(v.join("\n"))
    }
}
impl Inputs for Edits {
    fn len(&self) -> u64 {
        *self.starts.last().unwrap()
    }
    fn get(&self, i: u64, out: &mut String) -> bool {
        let d = self.starts.partition_point(|&s| s <= i) - 1;
        let doc = &self.docs[d];
        let mut k = i - self.starts[d];
        let r = match self.depth {
            0 => Some(doc.clone()),
            1 => self.apply(doc, k),
            _ => {
                let n = doc.chars().count();
                let l = doc.matches('\n').count() + 1;
                let second = self.ops(2 * n + self.maxtok(), 2 * l + 1);
                let first = k / second;
                k %= second;
                self.apply(doc, first).and_then(|m| self.apply(&m, k))
            }
        };
        out.clear();
        match r {
            Some(s) => {
                out.push_str(&s);
                true
            }
            None => false,
        }
    }
    fn describe(&self) -> String {
        format!(
            "{}: {} seed documents with every choice of {} edit(s) (delete/insert/replace a character by one of {:?}, truncate, drop head, delete/duplicate/indent/dedent/swap lines)",
            self.name,
            self.docs.len(),
            self.depth,
            self.tokens
        )
    }
}

/// The texts of another space that contain a text, with every occurrence of it replaced by another.
pub struct Subst {
    pub inner: Box<dyn Inputs>,
    pub from: &'static str,
    pub to: &'static str,
}
impl Inputs for Subst {
    fn len(&self) -> u64 {
        self.inner.len()
    }
    fn get(&self, i: u64, out: &mut String) -> bool {
        let ok = self.inner.get(i, out) && out.contains(self.from);
        *out = out.replace(self.from, self.to);
        ok
    }
    fn describe(&self) -> String {
        format!("with {:?} for every {:?}, {}", self.to, self.from, self.inner.describe())
    }
}
