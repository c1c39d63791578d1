//! Reference parser: a direct transcription of the YAML 1.2.2 grammar productions
//! (https://yaml.org/spec/1.2.2/), written independently of the code under test.
//! Every method is named after the production it implements; a method returns whether it
//! matched and leaves position and emitted events untouched when it did not.
//!
//! The only places where prose or established convention replaces the bare productions are
//! marked `CONV:`.

use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Props {
    pub anchor: Option<String>,
    /// Resolved tag; Err(()) if the handle is not declared.
    pub tag: Option<Result<String, ()>>,
}
impl Props {
    pub const NONE: Props = Props { anchor: None, tag: None };
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Style {
    Plain,
    Single,
    Double,
    Literal,
    Folded,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    DocStart(bool),
    DocEnd,
    Seq(Props),
    SeqEnd,
    Map(Props),
    MapEnd,
    Scalar(Style, String, Props),
    Alias(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum C {
    BlockOut,
    BlockIn,
    FlowOut,
    FlowIn,
    BlockKey,
    FlowKey,
}
use C::*;

fn in_flow(c: C) -> C {
    match c {
        FlowOut | FlowIn => FlowIn,
        BlockKey | FlowKey => FlowKey,
        _ => FlowIn,
    }
}

pub fn is_flow_ind(c: char) -> bool {
    matches!(c, ',' | '[' | ']' | '{' | '}')
}
fn is_indicator(c: char) -> bool {
    matches!(
        c,
        '-' | '?' | ':' | ',' | '[' | ']' | '{' | '}' | '#' | '&' | '*' | '!' | '|' | '>' | '\'' | '"' | '%' | '@' | '`'
    )
}
fn is_break(c: char) -> bool {
    c == '\n' || c == '\r'
}
fn is_white(c: char) -> bool {
    c == ' ' || c == '\t'
}
/// Lax mode: characters that are not printable count as content (NUL excepted).
static ANY_CHAR: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn any_char() -> bool {
    ANY_CHAR.load(std::sync::atomic::Ordering::Relaxed)
}
pub fn is_printable(c: char) -> bool {
    if any_char() && c != '\0' {
        return true;
    }
    matches!(c, '\t' | '\n' | '\r' | ' '..='~' | '\u{85}' | '\u{A0}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..)
}
fn is_nb(c: char) -> bool {
    is_printable(c) && !is_break(c) && (c != '\u{FEFF}' || any_char())
}
fn is_ns(c: char) -> bool {
    is_nb(c) && !is_white(c)
}
fn is_word(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '-'
}
fn is_nb_json(c: char) -> bool {
    (c == '\t' || c >= ' ' || (any_char() && c != '\0')) && !is_break(c)
}

pub struct Ref<'a> {
    s: &'a [char],
    end: usize,
    pos: usize,
    pub ev: Vec<Ev>,
    /// Where each event starts and ends in the text, as far as that is defined.
    at_: Vec<Where>,
    /// Where the comments start and end.
    comments: Vec<(usize, usize)>,
    tags: BTreeMap<String, String>,
    /// Handles declared for the current document.
    declared: BTreeSet<String>,
    /// Tag directives stay in force for later documents (`Parser::keep_tags`).
    keep: bool,
    /// Latest tag/anchor read.
    dup_directive: bool,
    steps: u64,
    limit: u64,
    /// Accept the documented extensions (see DESIGN.md, "Tolerated deviations").
    lax: bool,
    /// The corners reached that the specification leaves to the reader.
    fuzzy: u8,
    /// How to take them: of each the second reading instead of the first.
    reading: u8,
    ok: bool,
    /// Behind the last byte order mark that is not content.
    bom_end: usize,
}

/// Outcome of the reference parse.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Outcome {
    Ok(Vec<Ev>),
    Err,
    /// The step budget was exhausted (pathological backtracking); no verdict.
    Unknown,
}

/// Steps of a short text; long ones have more.
const STEP_LIMIT: u64 = 2_000_000;
const STEPS_PER_CHAR: u64 = 200;

type Save = (usize, usize);

/// The place of an event in the text (character offsets): the earliest and latest start and the
/// earliest and latest end.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Where {
    pub start: Option<(usize, usize)>,
    pub end: Option<(usize, usize)>,
}
impl Where {
    fn at(a: usize, b: usize) -> Where {
        Where { start: Some((a, a)), end: Some((b, b)) }
    }
    fn from(a: usize) -> Where {
        Where { start: Some((a, a)), end: None }
    }
}

impl<'a> Ref<'a> {
    pub fn parse(s: &'a [char]) -> Outcome {
        Self::parse_mode(s, false)
    }
    pub fn parse_mode(s: &'a [char], lax: bool) -> Outcome {
        Self::parse_with(s, lax, false)
    }
    pub fn parse_with(s: &'a [char], lax: bool, keep: bool) -> Outcome {
        Self::parse_located(s, lax, keep).0
    }
    fn new(s: &'a [char], lax: bool, keep: bool) -> Ref<'a> {
        Ref {
            s,
            end: s.len(),
            pos: 0,
            ev: Vec::new(),
            at_: Vec::new(),
            comments: Vec::new(),
            tags: BTreeMap::new(),
            declared: BTreeSet::new(),
            keep,
            dup_directive: false,
            steps: 0,
            limit: STEP_LIMIT.max(STEPS_PER_CHAR * s.len() as u64),
            lax,
            fuzzy: 0,
            reading: 0,
            ok: false,
            bom_end: 0,
        }
    }
    /// The outcome with the place of every event.
    pub fn parse_located(s: &'a [char], lax: bool, keep: bool) -> (Outcome, Vec<Where>) {
        let (o, w, _) = Self::parse_commented(s, lax, keep);
        (o, w)
    }
    /// The outcome with the place of every event and of every comment.
    pub fn parse_commented(s: &'a [char], lax: bool, keep: bool) -> (Outcome, Vec<Where>, Vec<(usize, usize)>) {
        let mut p = Ref::new(s, lax, keep);
        if p.run().is_none() || p.fuzzy != 0 {
            return (Outcome::Unknown, vec![], vec![]);
        }
        p.finish()
    }
    /// The outcomes of all readings of the corners which the specification leaves to the reader.
    pub fn readings(s: &'a [char], lax: bool, keep: bool) -> Vec<Outcome> {
        let mut out = vec![];
        let mut corners = 0;
        for reading in 0..=7u8 {
            if reading & !corners != 0 {
                continue;
            }
            let mut p = Ref::new(s, lax, keep);
            p.reading = reading;
            if p.run().is_none() {
                return vec![Outcome::Unknown];
            }
            corners |= p.fuzzy;
            let o = p.finish().0;
            if !out.contains(&o) {
                out.push(o);
            }
        }
        out
    }
    fn run(&mut self) -> Option<()> {
        ANY_CHAR.store(self.lax, std::sync::atomic::Ordering::Relaxed);
        self.ok = self.l_yaml_stream();
        (self.steps < self.limit).then_some(())
    }
    fn finish(self) -> (Outcome, Vec<Where>, Vec<(usize, usize)>) {
        let ok = self.ok;
        let p = self;
        if !ok || p.dup_directive {
            return (Outcome::Err, vec![], vec![]);
        }
        // Undeclared handles and unknown aliases are errors; anchors are per document.
        let mut anchors: BTreeSet<&str> = BTreeSet::new();
        let mut bad = false;
        for e in &p.ev {
            match e {
                Ev::DocStart(_) => anchors.clear(),
                Ev::Seq(pr) | Ev::Map(pr) | Ev::Scalar(_, _, pr) => {
                    if let Some(a) = &pr.anchor {
                        anchors.insert(a);
                    }
                    if matches!(pr.tag, Some(Err(()))) {
                        bad = true;
                    }
                }
                Ev::Alias(a) => {
                    if !anchors.contains(a.as_str()) {
                        bad = true;
                    }
                }
                _ => {}
            }
        }
        if bad { (Outcome::Err, vec![], vec![]) } else { (Outcome::Ok(p.ev), p.at_, p.comments) }
    }

    // ---- primitives -------------------------------------------------------------------
    fn peek(&self) -> Option<char> {
        if self.pos < self.end { Some(self.s[self.pos]) } else { None }
    }
    fn at(&self, i: usize) -> Option<char> {
        if self.pos + i < self.end { Some(self.s[self.pos + i]) } else { None }
    }
    fn prev(&self) -> Option<char> {
        if self.pos > 0 { Some(self.s[self.pos - 1]) } else { None }
    }
    fn eof(&self) -> bool {
        self.pos >= self.end
    }
    fn sol(&self) -> bool {
        match self.prev() {
            None => true,
            Some('\n') => true,
            Some('\u{FEFF}') => self.bom_end == self.pos,
            Some('\r') => self.peek() != Some('\n'),
            _ => false,
        }
    }
    /// Reached a corner: whether to take its first reading.
    fn corner(&mut self, c: u8) -> bool {
        self.fuzzy |= c;
        self.reading & c == 0
    }
    fn ch(&mut self, c: char) -> bool {
        if self.peek() == Some(c) {
            self.pos += 1;
            true
        } else {
            false
        }
    }
    fn save(&mut self) -> Save {
        self.steps += 1;
        if self.steps >= self.limit {
            // Make everything fail quickly.
            self.end = 0;
        }
        (self.pos, self.ev.len())
    }
    fn back(&mut self, s: Save) -> bool {
        self.pos = s.0;
        self.ev.truncate(s.1);
        self.at_.truncate(s.1);
        while self.comments.last().is_some_and(|c| c.0 >= s.0) {
            self.comments.pop();
        }
        false
    }
    fn emit(&mut self, e: Ev, w: Where) {
        self.ev.push(e);
        self.at_.push(w);
    }
    fn b_break(&mut self) -> bool {
        match self.peek() {
            Some('\n') => {
                self.pos += 1;
                true
            }
            Some('\r') => {
                self.pos += 1;
                if self.peek() == Some('\n') {
                    self.pos += 1;
                }
                true
            }
            _ => false,
        }
    }
    fn s_white_star(&mut self) -> usize {
        let p = self.pos;
        while self.peek().is_some_and(is_white) {
            self.pos += 1;
        }
        self.pos - p
    }
    fn count_spaces(&self) -> usize {
        let mut i = 0;
        while self.at(i) == Some(' ') {
            i += 1;
        }
        i
    }
    fn s_indent(&mut self, n: i32) -> bool {
        if n <= 0 {
            return true;
        }
        if self.count_spaces() >= n as usize {
            self.pos += n as usize;
            true
        } else {
            false
        }
    }
    fn s_separate_in_line(&mut self) -> bool {
        if self.s_white_star() > 0 {
            return true;
        }
        self.sol()
    }
    fn s_flow_line_prefix(&mut self, n: i32) -> bool {
        if !self.s_indent(n) {
            return false;
        }
        self.s_separate_in_line();
        true
    }
    /// [70] in the flow contexts and in block contexts.
    fn l_empty(&mut self, n: i32, c: C) -> bool {
        let s = self.save();
        if self.lax && !matches!(c, BlockOut | BlockIn) {
            // LAX: white space of any kind and amount does not make a line non-empty.
            self.s_white_star();
            if self.b_break() {
                return true;
            }
            return self.back(s);
        }
        let prefix = match c {
            BlockOut | BlockIn => self.s_indent(n),
            _ => self.s_flow_line_prefix(n),
        };
        if prefix && self.b_break() {
            return true;
        }
        self.back(s);
        let sp = self.count_spaces() as i32;
        if sp < n {
            self.pos += sp as usize;
            if self.b_break() {
                return true;
            }
        }
        self.back(s)
    }
    /// [73] returns the folded text
    fn b_l_folded(&mut self, n: i32, c: C) -> Option<usize> {
        // number of newlines kept; 0 means a single space
        if !self.b_break() {
            return None;
        }
        let mut k = 0;
        while !self.eof() && self.l_empty(n, c) {
            k += 1;
        }
        Some(k)
    }
    /// [74]
    fn s_flow_folded(&mut self, n: i32) -> Option<usize> {
        let s = self.save();
        self.s_separate_in_line();
        match self.b_l_folded(n, FlowIn) {
            Some(k) if self.s_flow_line_prefix(n) => Some(k),
            _ => {
                self.back(s);
                None
            }
        }
    }
    fn c_nb_comment_text(&mut self) -> bool {
        let start = self.pos;
        if !self.ch('#') {
            return false;
        }
        while self.peek().is_some_and(is_nb) {
            self.pos += 1;
        }
        while self.comments.last().is_some_and(|c| c.0 >= start) {
            self.comments.pop();
        }
        self.comments.push((start, self.pos));
        true
    }
    fn b_comment(&mut self) -> bool {
        self.b_break() || self.eof()
    }
    fn s_b_comment(&mut self) -> bool {
        let s = self.save();
        if self.s_separate_in_line() {
            self.c_nb_comment_text();
        }
        if self.b_comment() { true } else { self.back(s) }
    }
    fn l_comment(&mut self) -> bool {
        let s = self.save();
        if !self.s_separate_in_line() {
            return self.back(s);
        }
        self.c_nb_comment_text();
        if self.b_comment() { true } else { self.back(s) }
    }
    fn l_comment_star(&mut self) {
        loop {
            let p = self.pos;
            if !self.l_comment() || self.pos == p {
                return;
            }
        }
    }
    fn s_l_comments(&mut self) -> bool {
        if self.s_b_comment() || self.sol() {
            self.l_comment_star();
            true
        } else {
            false
        }
    }
    fn s_separate(&mut self, n: i32, c: C) -> bool {
        match c {
            BlockKey | FlowKey => self.s_separate_in_line(),
            _ => self.s_separate_lines(n),
        }
    }
    /// Separation between node properties and a flow node.
    fn s_separate_props(&mut self, n: i32, c: C) -> bool {
        // LAX: none is needed before a flow collection.
        if self.lax && matches!(self.peek(), Some('[' | '{')) {
            return true;
        }
        // LAX: a tab may stand in for the indentation of the content.
        if self.lax && !matches!(c, BlockKey | FlowKey) {
            let s = self.save();
            if self.s_l_comments() {
                let p = self.pos;
                self.s_white_star();
                if self.s[p..self.pos].contains(&'\t') {
                    return true;
                }
            }
            self.back(s);
        }
        self.s_separate(n, c)
    }
    fn s_separate_lines(&mut self, n: i32) -> bool {
        let s = self.save();
        if self.s_l_comments() && self.s_flow_line_prefix(n) {
            return true;
        }
        self.back(s);
        self.s_separate_in_line()
    }

    // ---- node properties --------------------------------------------------------------
    fn uri_char(&mut self, out: &mut Vec<u8>, tag_char: bool) -> bool {
        match self.peek() {
            Some('%') => {
                let h = |c: Option<char>| c.and_then(|c| c.to_digit(16));
                if let (Some(a), Some(b)) = (h(self.at(1)), h(self.at(2))) {
                    out.push((a * 16 + b) as u8);
                    self.pos += 3;
                    true
                } else {
                    false
                }
            }
            Some(c)
                if is_word(c)
                    || matches!(
                        c,
                        '#' | ';' | '/' | '?' | ':' | '@' | '&' | '=' | '+' | '$' | ',' | '_' | '.' | '!' | '~' | '*' | '\'' | '(' | ')' | '[' | ']'
                    ) =>
            {
                if tag_char && (c == '!' || is_flow_ind(c)) {
                    return false;
                }
                out.push(c as u8);
                self.pos += 1;
                true
            }
            _ => false,
        }
    }
    fn c_tag_handle(&mut self) -> Option<String> {
        // named | secondary | primary
        let s = self.save();
        if !self.ch('!') {
            return None;
        }
        let w0 = self.pos;
        while self.peek().is_some_and(is_word) {
            self.pos += 1;
        }
        if self.pos > w0 && self.ch('!') {
            return Some(self.s[s.0..self.pos].iter().collect());
        }
        self.pos = w0;
        if self.ch('!') {
            return Some("!!".into());
        }
        Some("!".into())
    }
    fn resolve(&self, handle: &str, suffix: &str) -> Result<String, ()> {
        let prefix = match self.tags.get(handle) {
            Some(p) => p.clone(),
            None => match handle {
                "!" => "!".to_string(),
                "!!" => "tag:yaml.org,2002:".to_string(),
                _ => return Err(()),
            },
        };
        Ok(prefix + suffix)
    }
    fn c_ns_tag_property(&mut self) -> Option<Result<String, ()>> {
        let s = self.save();
        if self.peek() != Some('!') {
            return None;
        }
        // verbatim
        if self.at(1) == Some('<') {
            self.pos += 2;
            let mut b = Vec::new();
            while self.uri_char(&mut b, false) {}
            if !b.is_empty() && self.ch('>') {
                return Some(String::from_utf8(b).map_err(|_| ()));
            }
            self.back(s);
        }
        // shorthand: try handles longest first
        for kind in 0..3 {
            self.back(s);
            let h: Option<String> = match kind {
                0 => {
                    // named
                    self.pos += 1;
                    let w0 = self.pos;
                    while self.peek().is_some_and(is_word) {
                        self.pos += 1;
                    }
                    if self.pos > w0 && self.ch('!') {
                        Some(self.s[s.0..self.pos].iter().collect())
                    } else {
                        None
                    }
                }
                1 => {
                    if self.at(1) == Some('!') {
                        self.pos += 2;
                        Some("!!".into())
                    } else {
                        None
                    }
                }
                _ => {
                    self.pos += 1;
                    Some("!".into())
                }
            };
            if let Some(h) = h {
                let mut b = Vec::new();
                while self.uri_char(&mut b, true) {}
                if !b.is_empty() {
                    return Some(match String::from_utf8(b) {
                        Ok(suf) => self.resolve(&h, &suf),
                        Err(_) => Err(()),
                    });
                }
            }
        }
        self.back(s);
        self.pos += 1;
        Some(Ok("!".into()))
    }
    fn ns_anchor_name(&mut self) -> Option<String> {
        let p = self.pos;
        while self.peek().is_some_and(|c| is_ns(c) && !is_flow_ind(c)) {
            self.pos += 1;
        }
        if self.pos > p { Some(self.s[p..self.pos].iter().collect()) } else { None }
    }
    fn c_ns_anchor_property(&mut self) -> Option<String> {
        let s = self.save();
        if self.ch('&') {
            if let Some(n) = self.ns_anchor_name() {
                return Some(n);
            }
        }
        self.back(s);
        None
    }
    fn c_ns_properties(&mut self, n: i32, c: C) -> Option<Props> {
        if let Some(t) = self.c_ns_tag_property() {
            let s = self.save();
            if self.s_separate_props(n, c) {
                if let Some(a) = self.c_ns_anchor_property() {
                    return Some(Props { anchor: Some(a), tag: Some(t) });
                }
            }
            self.back(s);
            return Some(Props { anchor: None, tag: Some(t) });
        }
        if let Some(a) = self.c_ns_anchor_property() {
            let s = self.save();
            if self.s_separate_props(n, c) {
                if let Some(t) = self.c_ns_tag_property() {
                    return Some(Props { anchor: Some(a), tag: Some(t) });
                }
            }
            self.back(s);
            return Some(Props { anchor: Some(a), tag: None });
        }
        None
    }
    fn c_ns_alias_node(&mut self) -> bool {
        let s = self.save();
        if self.ch('*') {
            if let Some(n) = self.ns_anchor_name() {
                self.emit(Ev::Alias(n), Where::at(s.0, self.pos));
                return true;
            }
        }
        self.back(s)
    }
    fn e_scalar(&mut self, p: Props) {
        self.emit(Ev::Scalar(Style::Plain, String::new(), p), Where::default());
    }

    // ---- flow scalars -----------------------------------------------------------------
    fn ns_esc_char(&mut self, out: &mut String) -> bool {
        // at backslash
        let c = match self.at(1) {
            Some(c) => c,
            None => return false,
        };
        let simple = match c {
            '0' => Some('\0'),
            'a' => Some('\x07'),
            'b' => Some('\x08'),
            't' | '\t' => Some('\t'),
            'n' => Some('\n'),
            'v' => Some('\x0b'),
            'f' => Some('\x0c'),
            'r' => Some('\r'),
            'e' => Some('\x1b'),
            ' ' => Some(' '),
            '"' => Some('"'),
            '/' => Some('/'),
            '\\' => Some('\\'),
            'N' => Some('\u{85}'),
            '_' => Some('\u{a0}'),
            'L' => Some('\u{2028}'),
            'P' => Some('\u{2029}'),
            _ => None,
        };
        if let Some(x) = simple {
            out.push(x);
            self.pos += 2;
            return true;
        }
        let len = match c {
            'x' => 2,
            'u' => 4,
            'U' => 8,
            _ => return false,
        };
        let mut v: u64 = 0;
        for i in 0..len {
            match self.at(2 + i).and_then(|c| c.to_digit(16)) {
                Some(d) => v = v * 16 + d as u64,
                None => return false,
            }
        }
        match u32::try_from(v).ok().and_then(char::from_u32) {
            Some(c) => {
                out.push(c);
                self.pos += 2 + len;
                true
            }
            None => false,
        }
    }
    fn ns_double_char(&mut self, out: &mut String) -> bool {
        match self.peek() {
            Some('\\') => self.ns_esc_char(out),
            Some('"') | None => false,
            Some(c) if is_nb_json(c) && !is_white(c) => {
                out.push(c);
                self.pos += 1;
                true
            }
            _ => false,
        }
    }
    fn ns_single_char(&mut self, out: &mut String) -> bool {
        match self.peek() {
            Some('\'') => {
                if self.at(1) == Some('\'') {
                    out.push('\'');
                    self.pos += 2;
                    true
                } else {
                    false
                }
            }
            None => false,
            Some(c) if is_nb_json(c) && !is_white(c) => {
                out.push(c);
                self.pos += 1;
                true
            }
            _ => false,
        }
    }
    /// (s-white* X)*
    fn in_line(&mut self, out: &mut String, f: fn(&mut Self, &mut String) -> bool) {
        loop {
            let p = self.pos;
            let l = out.len();
            while let Some(c) = self.peek() {
                if is_white(c) {
                    out.push(c);
                    self.pos += 1;
                } else {
                    break;
                }
            }
            if !f(self, out) {
                self.pos = p;
                out.truncate(l);
                return;
            }
        }
    }
    fn push_white(&mut self, out: &mut String) {
        while let Some(c) = self.peek() {
            if is_white(c) {
                out.push(c);
                self.pos += 1;
            } else {
                break;
            }
        }
    }
    fn push_fold(out: &mut String, k: usize) {
        if k == 0 {
            out.push(' ');
        } else {
            for _ in 0..k {
                out.push('\n');
            }
        }
    }
    fn c_double_quoted(&mut self, mut n: i32, c: C, props: Props) -> bool {
        if self.lax && !matches!(c, FlowIn | FlowKey) {
            // LAX: continuation lines may be as far left as the entries of the block collection around.
            n -= 1;
        }
        let s = self.save();
        if !self.ch('"') {
            return false;
        }
        let mut out = String::new();
        if matches!(c, BlockKey | FlowKey) {
            loop {
                let l = self.pos;
                if self.peek().is_some_and(is_white) {
                    self.push_white(&mut out);
                } else {
                    self.ns_double_char(&mut out);
                }
                if self.pos == l {
                    break;
                }
            }
        } else {
            self.in_line(&mut out, Self::ns_double_char);
            loop {
                // s-double-break
                let s2 = self.save();
                let l2 = out.len();
                self.push_white(&mut out);
                let mut broke = false;
                if self.peek() == Some('\\') && self.at(1).is_some_and(is_break) {
                    self.pos += 1;
                    self.b_break();
                    while !self.eof() && self.l_empty(n, FlowIn) {
                        out.push('\n');
                    }
                    // LAX: after an escaped break no indentation is needed.
                    if self.s_flow_line_prefix(if self.lax { 0 } else { n }) {
                        broke = true;
                    }
                }
                if !broke {
                    self.back(s2);
                    out.truncate(l2);
                    if let Some(k) = self.s_flow_folded(n) {
                        Self::push_fold(&mut out, k);
                        broke = true;
                    }
                }
                if !broke {
                    self.push_white(&mut out);
                    break;
                }
                if self.ns_double_char(&mut out) {
                    self.in_line(&mut out, Self::ns_double_char);
                } else if self.peek().is_some_and(is_white) {
                    return self.back(s);
                } else if self.peek() == Some('"') || !self.peek().is_some_and(|c| c == '\\' || is_break(c)) {
                    break;
                } else if self.peek() == Some('\\') && self.at(1).is_some_and(is_break) {
                    // s-double-escaped straight after a fold is a further double-break only
                    // after an ns-double-char. LAX: the libyaml family accepts it.
                    if self.lax {
                        continue;
                    }
                    return self.back(s);
                } else {
                    return self.back(s);
                }
            }
        }
        if self.ch('"') {
            self.emit(Ev::Scalar(Style::Double, out, props), Where::at(s.0, self.pos));
            true
        } else {
            self.back(s)
        }
    }
    fn c_single_quoted(&mut self, mut n: i32, c: C, props: Props) -> bool {
        if self.lax && !matches!(c, FlowIn | FlowKey) {
            n -= 1;
        }
        let s = self.save();
        if !self.ch('\'') {
            return false;
        }
        let mut out = String::new();
        if matches!(c, BlockKey | FlowKey) {
            loop {
                let l = self.pos;
                if self.peek().is_some_and(is_white) {
                    self.push_white(&mut out);
                } else {
                    self.ns_single_char(&mut out);
                }
                if self.pos == l {
                    break;
                }
            }
        } else {
            self.in_line(&mut out, Self::ns_single_char);
            loop {
                match self.s_flow_folded(n) {
                    Some(k) => {
                        Self::push_fold(&mut out, k);
                        if self.ns_single_char(&mut out) {
                            self.in_line(&mut out, Self::ns_single_char);
                        } else {
                            break;
                        }
                    }
                    None => {
                        self.push_white(&mut out);
                        break;
                    }
                }
            }
        }
        if self.ch('\'') {
            self.emit(Ev::Scalar(Style::Single, out, props), Where::at(s.0, self.pos));
            true
        } else {
            self.back(s)
        }
    }
    fn plain_safe(c: char, ctx: C) -> bool {
        match ctx {
            FlowIn | FlowKey => is_ns(c) && !is_flow_ind(c),
            _ => is_ns(c),
        }
    }
    fn ns_plain_char(&mut self, ctx: C, out: &mut String) -> bool {
        let ok = match self.peek() {
            None => false,
            Some(':') => self.at(1).is_some_and(|d| Self::plain_safe(d, ctx)),
            Some('#') => self.prev().is_some_and(is_ns),
            Some(c) => Self::plain_safe(c, ctx),
        };
        if ok {
            out.push(self.s[self.pos]);
            self.pos += 1;
        }
        ok
    }
    fn nb_ns_plain_in_line(&mut self, ctx: C, out: &mut String) {
        loop {
            let p = self.pos;
            let l = out.len();
            self.push_white(out);
            if !self.ns_plain_char(ctx, out) {
                self.pos = p;
                out.truncate(l);
                return;
            }
        }
    }
    fn ns_plain(&mut self, n: i32, ctx: C, props: Props) -> bool {
        let first = match self.peek() {
            None => false,
            Some(c @ ('?' | ':' | '-')) => {
                let _ = c;
                self.at(1).is_some_and(|d| Self::plain_safe(d, ctx))
            }
            Some(c) => is_ns(c) && !is_indicator(c),
        };
        if !first {
            return false;
        }
        let start = self.pos;
        // The leniency for lines in flow collections does not extend to the first line of a plain scalar.
        if self.lax && matches!(ctx, FlowIn | FlowKey) {
            let col = self.s[..start].iter().rev().take_while(|c| !is_break(**c)).count() as i32;
            if col < n {
                return false;
            }
        }
        let mut out = String::new();
        out.push(self.s[self.pos]);
        self.pos += 1;
        self.nb_ns_plain_in_line(ctx, &mut out);
        if !matches!(ctx, BlockKey | FlowKey) {
            loop {
                let s = self.save();
                let l = out.len();
                // LAX: nor for the further lines of plain scalars in flow collections.
                match self.s_flow_folded(if self.lax && ctx == FlowIn { 0 } else { n }) {
                    Some(k) => {
                        Self::push_fold(&mut out, k);
                        if self.ns_plain_char(ctx, &mut out) {
                            self.nb_ns_plain_in_line(ctx, &mut out);
                        } else {
                            self.back(s);
                            out.truncate(l);
                            break;
                        }
                    }
                    None => break,
                }
            }
        }
        self.emit(Ev::Scalar(Style::Plain, out, props), Where::at(start, self.pos));
        true
    }

    // ---- flow collections -------------------------------------------------------------
    fn c_flow_sequence(&mut self, mut n: i32, c: C, props: Props) -> bool {
        if self.lax && !matches!(c, FlowIn | FlowKey) {
            // LAX: lines inside may be as far left as the entries of the block collection around.
            n -= 1;
        }
        let s = self.save();
        if !self.ch('[') {
            return false;
        }
        self.emit(Ev::Seq(props), Where::at(s.0, self.pos));
        self.opt_sep(n, c);
        let ic = in_flow(c);
        // ns-s-flow-seq-entries
        loop {
            if self.peek() == Some(']') {
                break;
            }
            if !(self.ns_flow_pair(n, ic) || self.ns_flow_node(n, ic)) {
                break;
            }
            self.opt_sep(n, ic);
            if !self.ch(',') {
                break;
            }
            self.opt_sep(n, ic);
        }
        if self.ch(']') {
            self.emit(Ev::SeqEnd, Where::at(self.pos - 1, self.pos));
            true
        } else {
            self.back(s)
        }
    }
    fn opt_sep(&mut self, n: i32, c: C) {
        let s = self.save();
        if !self.s_separate(n, c) {
            self.back(s);
        }
    }
    fn c_flow_mapping(&mut self, mut n: i32, c: C, props: Props) -> bool {
        if self.lax && !matches!(c, FlowIn | FlowKey) {
            // LAX: lines inside may be as far left as the entries of the block collection around.
            n -= 1;
        }
        let s = self.save();
        if !self.ch('{') {
            return false;
        }
        self.emit(Ev::Map(props), Where::at(s.0, self.pos));
        self.opt_sep(n, c);
        let ic = in_flow(c);
        loop {
            if self.peek() == Some('}') {
                break;
            }
            if !self.ns_flow_map_entry(n, ic) {
                break;
            }
            self.opt_sep(n, ic);
            if !self.ch(',') {
                break;
            }
            self.opt_sep(n, ic);
        }
        if self.ch('}') {
            self.emit(Ev::MapEnd, Where::at(self.pos - 1, self.pos));
            true
        } else {
            self.back(s)
        }
    }
    fn ns_flow_map_entry(&mut self, n: i32, c: C) -> bool {
        let s = self.save();
        if self.ch('?') && self.s_separate(n, c) && self.ns_flow_map_explicit_entry(n, c) {
            return true;
        }
        self.back(s);
        self.ns_flow_map_implicit_entry(n, c)
    }
    fn ns_flow_map_explicit_entry(&mut self, n: i32, c: C) -> bool {
        if self.ns_flow_map_implicit_entry(n, c) {
            return true;
        }
        self.e_scalar(Props::NONE);
        self.e_scalar(Props::NONE);
        true
    }
    fn ns_flow_map_implicit_entry(&mut self, n: i32, c: C) -> bool {
        let s = self.save();
        // json key entry first: the yaml alternative would match bare properties
        if self.c_flow_json_node(n, c) {
            let s2 = self.save();
            self.opt_sep(n, c);
            if self.c_ns_flow_map_adjacent_value(n, c) {
                return true;
            }
            self.back(s2);
            self.e_scalar(Props::NONE);
            return true;
        }
        self.back(s);
        // yaml key entry
        if self.ns_flow_yaml_node(n, c) {
            let s2 = self.save();
            self.opt_sep(n, c);
            if self.c_ns_flow_map_separate_value(n, c) {
                return true;
            }
            self.back(s2);
            self.e_scalar(Props::NONE);
            return true;
        }
        self.back(s);
        // empty key entry
        self.e_scalar(Props::NONE);
        if self.c_ns_flow_map_separate_value(n, c) {
            return true;
        }
        self.back(s)
    }
    fn c_ns_flow_map_separate_value(&mut self, n: i32, c: C) -> bool {
        let s = self.save();
        if !self.ch(':') {
            return false;
        }
        if self.peek().is_some_and(|d| Self::plain_safe(d, c)) {
            return self.back(s);
        }
        let s2 = self.save();
        if self.s_separate(n, c) && self.ns_flow_node(n, c) {
            return true;
        }
        self.back(s2);
        self.e_scalar(Props::NONE);
        true
    }
    fn c_ns_flow_map_adjacent_value(&mut self, n: i32, c: C) -> bool {
        if !self.ch(':') {
            return false;
        }
        let s2 = self.save();
        self.opt_sep(n, c);
        if self.ns_flow_node(n, c) {
            return true;
        }
        self.back(s2);
        self.e_scalar(Props::NONE);
        true
    }
    fn ns_flow_pair(&mut self, n: i32, c: C) -> bool {
        let s = self.save();
        self.emit(Ev::Map(Props::NONE), Where::from(s.0));
        let s1 = self.save();
        let ok = (self.ch('?') && self.s_separate(n, c) && self.ns_flow_map_explicit_entry(n, c)) || {
            self.back(s1);
            self.ns_flow_pair_entry(n, c)
        };
        if ok {
            self.emit(Ev::MapEnd, Where::default());
            true
        } else {
            self.back(s)
        }
    }
    fn ns_flow_pair_entry(&mut self, n: i32, c: C) -> bool {
        let s = self.save();
        if self.ns_s_implicit_yaml_key(FlowKey) && self.c_ns_flow_map_separate_value(n, c) {
            return true;
        }
        self.back(s);
        self.e_scalar(Props::NONE);
        if self.c_ns_flow_map_separate_value(n, c) {
            return true;
        }
        self.back(s);
        if self.c_s_implicit_json_key(FlowKey) && self.c_ns_flow_map_adjacent_value(n, c) {
            return true;
        }
        self.back(s)
    }
    fn ns_s_implicit_yaml_key(&mut self, c: C) -> bool {
        let s = self.save();
        if self.ns_flow_yaml_node(0, c) {
            self.s_separate_in_line();
            if self.pos - s.0 <= 1024 {
                return true;
            }
        }
        self.back(s)
    }
    fn c_s_implicit_json_key(&mut self, c: C) -> bool {
        let s = self.save();
        if self.c_flow_json_node(0, c) {
            self.s_separate_in_line();
            if self.pos - s.0 <= 1024 {
                return true;
            }
        }
        self.back(s)
    }
    fn c_flow_json_content(&mut self, n: i32, c: C, props: &Props) -> bool {
        match self.peek() {
            Some('[') => self.c_flow_sequence(n, c, props.clone()),
            Some('{') => self.c_flow_mapping(n, c, props.clone()),
            Some('\'') => self.c_single_quoted(n, c, props.clone()),
            Some('"') => self.c_double_quoted(n, c, props.clone()),
            _ => false,
        }
    }
    fn ns_flow_yaml_node(&mut self, n: i32, c: C) -> bool {
        let s = self.save();
        if self.c_ns_alias_node() {
            return true;
        }
        if self.ns_plain(n, c, Props::NONE) {
            return true;
        }
        if let Some(p) = self.c_ns_properties(n, c) {
            let s2 = self.save();
            if self.s_separate_props(n, c) && self.ns_plain(n, c, p.clone()) {
                return true;
            }
            self.back(s2);
            self.e_scalar(p);
            return true;
        }
        self.back(s)
    }
    fn c_flow_json_node(&mut self, n: i32, c: C) -> bool {
        let s = self.save();
        if let Some(p) = self.c_ns_properties(n, c) {
            if self.s_separate_props(n, c) && self.c_flow_json_content(n, c, &p) {
                return true;
            }
            return self.back(s);
        }
        self.c_flow_json_content(n, c, &Props::NONE)
    }
    fn ns_flow_content(&mut self, n: i32, c: C, p: &Props) -> bool {
        self.ns_plain(n, c, p.clone()) || self.c_flow_json_content(n, c, p)
    }
    fn ns_flow_node(&mut self, n: i32, c: C) -> bool {
        let s = self.save();
        if self.c_ns_alias_node() || self.ns_flow_content(n, c, &Props::NONE) {
            return true;
        }
        if let Some(p) = self.c_ns_properties(n, c) {
            let s2 = self.save();
            if self.s_separate_props(n, c) && self.ns_flow_content(n, c, &p) {
                return true;
            }
            self.back(s2);
            self.e_scalar(p);
            return true;
        }
        self.back(s)
    }

    // ---- block scalars ----------------------------------------------------------------
    fn block_scalar(&mut self, n: i32, props: Props) -> bool {
        let s = self.save();
        let folded = match self.peek() {
            Some('|') => false,
            Some('>') => true,
            _ => return false,
        };
        self.pos += 1;
        let mut ind: Option<i32> = None;
        let mut chomp: Option<char> = None;
        for _ in 0..2 {
            match self.peek() {
                Some(c @ '1'..='9') if ind.is_none() => {
                    ind = Some(c as i32 - '0' as i32);
                    self.pos += 1;
                }
                Some(c @ ('+' | '-')) if chomp.is_none() => {
                    chomp = Some(c);
                    self.pos += 1;
                }
                _ => {}
            }
        }
        if !self.s_b_comment() {
            return self.back(s);
        }
        let k: i32 = match ind {
            // CONV: at the top level (n = -1) an explicit indentation indicator is relative to
            // column 0, as in every known implementation.
            Some(m) => n.max(0) + m,
            None => {
                // auto-detect
                let p0 = self.pos;
                let mut max_blank = 0;
                let mut det;
                loop {
                    let sp = self.count_spaces() as i32;
                    let save = self.pos;
                    self.pos += sp as usize;
                    if self.eof() {
                        det = max_blank.max(sp);
                        // the final unterminated line of spaces cannot be content
                        break;
                    }
                    if self.b_break() {
                        max_blank = max_blank.max(sp);
                        continue;
                    }
                    self.pos = save;
                    det = sp;
                    if sp > n && max_blank > sp {
                        // leading empty line with more spaces than the first non-empty line
                        return self.back(s);
                    }
                    break;
                }
                self.pos = p0;
                if det < n + 1 {
                    det = n + 1;
                    // No content line; leading blank lines must not be deeper either.
                    if max_blank > det {
                        det = max_blank;
                    }
                }
                det
            }
        };
        enum L {
            Empty,
            Text(String, bool),
        }
        let mut lines: Vec<L> = Vec::new();
        let (mut first, mut last) = (None, None);
        loop {
            if self.eof() {
                break;
            }
            let sp = (self.count_spaces() as i32).min(k);
            let save = self.pos;
            self.pos += sp as usize;
            if self.eof() {
                // CONV: the end of the stream terminates an unterminated last line
                // (yaml-test-suite JEF9, P2AD), so a final line of spaces is an empty line.
                if sp > 0 {
                    // With '+', whether this is a line to keep is anyone's guess.
                    if chomp != Some('+') || self.corner(1) {
                        lines.push(L::Empty);
                    }
                }
                break;
            }
            if self.b_break() {
                lines.push(L::Empty);
                continue;
            }
            if sp < k {
                self.pos = save;
                break;
            }
            let t0 = self.pos;
            while self.peek().is_some_and(is_nb) {
                self.pos += 1;
            }
            if self.pos == t0 {
                return self.back(s);
            }
            first.get_or_insert(t0);
            last = Some(self.pos);
            let text: String = self.s[t0..self.pos].iter().collect();
            let spaced = is_white(self.s[t0]);
            lines.push(L::Text(text, spaced));
            if !self.b_break() {
                if !self.eof() {
                    return self.back(s);
                }
                // CONV: as above.
                break;
            }
        }
        let until = self.pos;
        let last_text = lines.iter().rposition(|l| matches!(l, L::Text(..)));
        let mut out = String::new();
        let mut empties = 0usize;
        let mut prev: Option<bool> = None;
        if let Some(lt) = last_text {
            for l in &lines[..=lt] {
                match l {
                    L::Empty => empties += 1,
                    L::Text(t, spaced) => {
                        match prev {
                            None => {
                                for _ in 0..empties {
                                    out.push('\n');
                                }
                            }
                            Some(ps) => {
                                if !folded || ps || *spaced {
                                    for _ in 0..=empties {
                                        out.push('\n');
                                    }
                                } else {
                                    Self::push_fold(&mut out, empties);
                                }
                            }
                        }
                        out.push_str(t);
                        empties = 0;
                        prev = Some(*spaced);
                    }
                }
            }
            let trailing = lines.len() - 1 - lt;
            match chomp {
                Some('-') => {}
                None => out.push('\n'),
                _ => {
                    for _ in 0..=trailing {
                        out.push('\n');
                    }
                }
            }
        } else if chomp == Some('+') {
            for _ in 0..lines.len() {
                out.push('\n');
            }
        }
        let sp = self.count_spaces();
        if self.at(sp) == Some('\t') {
            // A less indented line with a tab. It may only be a blank line at the very end of a
            // document, which implementations either accept or reject.
            if !self.corner(2) {
                return self.back(s);
            }
            self.l_comment_star();
        }
        // l-trail-comments(n+m)
        let s3 = self.save();
        let sp = self.count_spaces() as i32;
        if sp < k {
            self.pos += sp as usize;
            if self.c_nb_comment_text() && self.b_comment() {
                self.l_comment_star();
            } else {
                self.back(s3);
            }
        }
        let st = if folded { Style::Folded } else { Style::Literal };
        let first = first.unwrap_or(until);
        self.emit(
            Ev::Scalar(st, out, props),
            // Whether the header and trailing blank lines belong to the scalar is left open.
            Where { start: Some((s.0, first)), end: Some((last.unwrap_or(s.0), until)) },
        );
        true
    }

    // ---- block collections ------------------------------------------------------------
    fn indent_of_line(&self) -> i32 {
        self.count_spaces() as i32
    }
    fn next_is_ns(&self, i: usize) -> bool {
        self.at(i).is_some_and(is_ns)
    }
    fn l_block_sequence(&mut self, n: i32, props: &Props) -> bool {
        let s = self.save();
        let k = self.indent_of_line();
        if k < n + 1 || !self.sol() {
            return false;
        }
        self.emit(Ev::Seq(props.clone()), Where::from(s.0 + k.max(0) as usize));
        let mut any = false;
        loop {
            let s1 = self.save();
            if self.sol() && self.indent_of_line() == k && self.s_indent(k) && self.c_l_block_seq_entry(k) {
                any = true;
            } else {
                self.back(s1);
                break;
            }
        }
        if any {
            self.emit(Ev::SeqEnd, Where::default());
            true
        } else {
            self.back(s)
        }
    }
    fn c_l_block_seq_entry(&mut self, n: i32) -> bool {
        let s = self.save();
        if self.ch('-') && !self.next_is_ns(0) && self.s_l_block_indented(n, BlockIn) {
            return true;
        }
        self.back(s)
    }
    fn s_l_block_indented(&mut self, n: i32, c: C) -> bool {
        let s = self.save();
        let m = self.count_spaces() as i32;
        if m > 0 {
            self.pos += m as usize;
            if self.ns_l_compact_sequence(n + 1 + m) || self.ns_l_compact_mapping(n + 1 + m) {
                return true;
            }
        }
        self.back(s);
        if self.s_l_block_node(n, c) {
            return true;
        }
        self.back(s);
        self.e_scalar(Props::NONE);
        if self.s_l_comments() { true } else { self.back(s) }
    }
    fn ns_l_compact_sequence(&mut self, n: i32) -> bool {
        let s = self.save();
        self.emit(Ev::Seq(Props::NONE), Where::from(s.0));
        if !self.c_l_block_seq_entry(n) {
            return self.back(s);
        }
        loop {
            let s1 = self.save();
            if !(self.sol() && self.indent_of_line() == n && self.s_indent(n) && self.c_l_block_seq_entry(n)) {
                self.back(s1);
                break;
            }
        }
        self.emit(Ev::SeqEnd, Where::default());
        true
    }
    fn ns_l_compact_mapping(&mut self, n: i32) -> bool {
        let s = self.save();
        self.emit(Ev::Map(Props::NONE), Where::from(s.0));
        if !self.ns_l_block_map_entry(n) {
            return self.back(s);
        }
        loop {
            let s1 = self.save();
            if !(self.sol() && self.indent_of_line() == n && self.s_indent(n) && self.ns_l_block_map_entry(n)) {
                self.back(s1);
                break;
            }
        }
        self.emit(Ev::MapEnd, Where::default());
        true
    }
    fn l_block_mapping(&mut self, n: i32, props: &Props) -> bool {
        let s = self.save();
        let k = self.indent_of_line();
        if k < n + 1 || !self.sol() {
            return false;
        }
        self.emit(Ev::Map(props.clone()), Where::from(s.0 + k.max(0) as usize));
        let mut any = false;
        loop {
            let s1 = self.save();
            if self.sol() && self.indent_of_line() == k && self.s_indent(k) && self.ns_l_block_map_entry(k) {
                any = true;
            } else {
                self.back(s1);
                break;
            }
        }
        if any {
            self.emit(Ev::MapEnd, Where::default());
            true
        } else {
            self.back(s)
        }
    }
    fn ns_l_block_map_entry(&mut self, n: i32) -> bool {
        if self.eof() {
            return false;
        }
        let s = self.save();
        // explicit
        if self.ch('?') && !self.next_is_ns(0) && self.s_l_block_indented(n, BlockOut) {
            let s1 = self.save();
            if self.sol()
                && self.s_indent(n)
                && self.ch(':')
                && !self.next_is_ns(0)
                && self.s_l_block_indented(n, BlockOut)
            {
                return true;
            }
            self.back(s1);
            self.e_scalar(Props::NONE);
            return true;
        }
        self.back(s);
        // implicit
        let key = self.c_s_implicit_json_key(BlockKey) || self.ns_s_implicit_yaml_key(BlockKey);
        if !key {
            self.back(s);
            self.e_scalar(Props::NONE);
        }
        if self.c_l_block_map_implicit_value(n, !key) {
            return true;
        }
        // A JSON-like key that does not work out may still be a yaml key (props + empty).
        self.back(s);
        if self.ns_s_implicit_yaml_key(BlockKey) && self.c_l_block_map_implicit_value(n, false) {
            return true;
        }
        self.back(s)
    }
    fn c_l_block_map_implicit_value(&mut self, n: i32, empty_key: bool) -> bool {
        let s = self.save();
        if !self.ch(':') {
            return false;
        }
        let s1 = self.save();
        if self.s_l_block_node(n, BlockOut) {
            return true;
        }
        self.back(s1);
        // LAX: after an empty key, a compact collection may follow.
        if self.lax && empty_key && self.s_l_block_indented(n, BlockOut) {
            return true;
        }
        self.back(s1);
        self.e_scalar(Props::NONE);
        if self.s_l_comments() { true } else { self.back(s) }
    }
    fn s_l_block_node(&mut self, n: i32, c: C) -> bool {
        self.s_l_block_scalar(n, c) || self.s_l_block_collection(n, c) || self.s_l_flow_in_block(n)
    }
    fn s_l_block_scalar(&mut self, n: i32, c: C) -> bool {
        let s = self.save();
        if self.s_separate(n + 1, c) {
            let s1 = self.save();
            if let Some(p) = self.c_ns_properties(n + 1, c) {
                if self.s_separate_props(n + 1, c) && self.block_scalar(n, p) {
                    return true;
                }
            }
            self.back(s1);
            if self.block_scalar(n, Props::NONE) {
                return true;
            }
        }
        self.back(s)
    }
    fn s_l_block_collection(&mut self, n: i32, c: C) -> bool {
        let s = self.save();
        for variant in 0..4 {
            self.back(s);
            let props = match variant {
                0..=2 => {
                    if !self.s_separate(n + 1, c) {
                        continue;
                    }
                    let p = match variant {
                        0 => self.c_ns_properties(n + 1, c),
                        1 => self.c_ns_tag_property().map(|t| Props { anchor: None, tag: Some(t) }),
                        _ => self.c_ns_anchor_property().map(|a| Props { anchor: Some(a), tag: None }),
                    };
                    match p {
                        Some(p) => p,
                        None => continue,
                    }
                }
                _ => Props::NONE,
            };
            if !self.s_l_comments() {
                continue;
            }
            let ok = match c {
                BlockOut => self.l_block_sequence(n - 1, &props),
                _ => self.l_block_sequence(n, &props),
            } || self.l_block_mapping(n, &props);
            if ok {
                return true;
            }
        }
        self.back(s)
    }
    fn s_l_flow_in_block(&mut self, n: i32) -> bool {
        let s = self.save();
        if self.s_separate(n + 1, FlowOut) && self.ns_flow_node(n + 1, FlowOut) && self.s_l_comments() {
            return true;
        }
        self.back(s)
    }

    // ---- documents --------------------------------------------------------------------
    fn forbidden_at(&self, p: usize) -> bool {
        if p + 3 > self.s.len() {
            return false;
        }
        let t = &self.s[p..p + 3];
        if !(t == ['-', '-', '-'] || t == ['.', '.', '.']) {
            return false;
        }
        match self.s.get(p + 3) {
            None => true,
            Some(&c) => is_break(c) || is_white(c),
        }
    }
    fn bom(&mut self) -> bool {
        let r = self.ch('\u{FEFF}');
        if r {
            self.bom_end = self.pos;
        }
        r
    }
    fn l_document_prefix(&mut self) {
        loop {
            let p = self.pos;
            self.bom();
            self.l_comment_star();
            if self.pos == p {
                return;
            }
        }
    }
    fn l_bare_document(&mut self, explicit: bool) -> bool {
        let s = self.save();
        // content excludes c-forbidden
        let full = self.end;
        let (start, at_start) = (self.pos, self.sol());
        let mut q = self.pos;
        let mut lim = full;
        while q < full {
            let sol = q == 0 || (q == start && at_start) || self.s[q - 1] == '\n' || (self.s[q - 1] == '\r' && self.s[q] != '\n');
            if sol && self.forbidden_at(q) {
                lim = q;
                break;
            }
            q += 1;
        }
        self.end = lim;
        let ok = if !explicit && self.eof() { false } else { self.s_l_block_node(-1, BlockIn) };
        if self.steps < self.limit {
            self.end = full;
        }
        if ok { true } else { self.back(s) }
    }
    fn forget_tags(&mut self) {
        if !self.keep {
            self.tags.clear();
        }
    }
    fn l_explicit_document(&mut self) -> bool {
        let s = self.save();
        if !self.sol() || !self.forbidden_at(self.pos) || self.s[self.pos] != '-' {
            return false;
        }
        self.pos += 3;
        self.emit(Ev::DocStart(true), Where::at(s.0, self.pos));
        let s1 = self.save();
        if self.l_bare_document(true) {
            self.emit(Ev::DocEnd, Where::default());
            self.forget_tags();
            return true;
        }
        self.back(s1);
        self.e_scalar(Props::NONE);
        if self.s_l_comments() {
            self.emit(Ev::DocEnd, Where::default());
            self.forget_tags();
            return true;
        }
        self.back(s)
    }
    fn l_directive(&mut self, yaml_seen: &mut bool) -> bool {
        let s = self.save();
        if !self.sol() || !self.ch('%') {
            return false;
        }
        let p = self.pos;
        while self.peek().is_some_and(is_ns) {
            self.pos += 1;
        }
        if self.pos == p {
            return self.back(s);
        }
        let name: String = self.s[p..self.pos].iter().collect();
        match name.as_str() {
            "YAML" => {
                if !self.s_separate_in_line() {
                    return self.back(s);
                }
                let digits = |me: &mut Self| {
                    let p = me.pos;
                    while me.peek().is_some_and(|c| c.is_ascii_digit()) {
                        me.pos += 1;
                    }
                    // Numbers of more than nine digits need not be understood.
                    me.pos > p && (me.lax || me.pos - p <= 9)
                };
                if !(digits(self) && self.ch('.') && digits(self)) {
                    return self.back(s);
                }
                if *yaml_seen {
                    self.dup_directive = true;
                }
                *yaml_seen = true;
            }
            "TAG" => {
                if !self.s_separate_in_line() {
                    return self.back(s);
                }
                let h = match self.c_tag_handle() {
                    Some(h) => h,
                    None => return self.back(s),
                };
                if !self.s_separate_in_line() {
                    return self.back(s);
                }
                let mut b = Vec::new();
                if self.ch('!') {
                    b.push(b'!');
                    while self.uri_char(&mut b, false) {}
                } else {
                    if !self.uri_char(&mut b, true) {
                        return self.back(s);
                    }
                    while self.uri_char(&mut b, false) {}
                }
                let Ok(prefix) = String::from_utf8(b) else { return self.back(s) };
                if !self.declared.insert(h.clone()) {
                    self.dup_directive = true;
                }
                if self.tags.insert(h, prefix).is_some() && !self.keep {
                    self.dup_directive = true;
                }
            }
            _ => loop {
                let s1 = self.save();
                if self.s_white_star() > 0 && self.peek().is_some_and(|c| is_ns(c) && c != '#') {
                    while self.peek().is_some_and(is_ns) {
                        self.pos += 1;
                    }
                } else {
                    self.back(s1);
                    break;
                }
            },
        }
        if self.s_l_comments() { true } else { self.back(s) }
    }
    fn l_any_document(&mut self) -> bool {
        let s = self.save();
        // directive document
        self.forget_tags();
        self.declared.clear();
        let mut yaml_seen = false;
        if self.l_directive(&mut yaml_seen) {
            while self.l_directive(&mut yaml_seen) {}
            if self.l_explicit_document() {
                return true;
            }
            self.back(s);
            return false;
        }
        if self.l_explicit_document() {
            return true;
        }
        self.emit(Ev::DocStart(false), Where::default());
        if self.l_bare_document(false) {
            self.emit(Ev::DocEnd, Where::default());
            return true;
        }
        self.back(s)
    }
    fn l_document_suffix(&mut self) -> bool {
        let s = self.save();
        if self.sol() && self.forbidden_at(self.pos) && self.s[self.pos] == '.' {
            self.pos += 3;
            if self.s_l_comments() {
                return true;
            }
        }
        self.back(s)
    }
    fn l_yaml_stream(&mut self) -> bool {
        self.l_document_prefix();
        self.l_any_document();
        loop {
            let p = self.pos;
            if self.l_document_suffix() {
                while self.l_document_suffix() {}
                self.l_document_prefix();
                self.l_any_document();
            } else if self.bom() {
                // A byte order mark inside the stream without a document end marker before it.
                if !self.corner(4) {
                    return false;
                }
            } else if self.l_comment() && self.pos > p {
            } else if self.l_explicit_document() {
            } else {
                break;
            }
            if self.pos == p {
                break;
            }
        }
        self.eof()
    }
}
