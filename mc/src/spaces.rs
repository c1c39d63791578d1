//! The bounded input spaces each check enumerates, by subject. Bounds come in three levels: 0 for
//! checks that take all subjects together, 1 for the quick and 2 for the thorough tier.
use crate::ladders;
use crate::space::*;

pub type Sp = Box<dyn Inputs>;
type Ctxs = &'static [(&'static str, &'static str)];

fn b(x: impl Inputs + 'static) -> Sp {
    Box::new(x)
}
/// A level of bounds.
#[derive(Clone, Copy, PartialEq, PartialOrd)]
pub struct Lv(pub usize);
impl Lv {
    fn of<T: Copy>(self, v: [T; 3]) -> T {
        v[self.0]
    }
}

/// Indentations times line contents: an alphabet of lines.
pub fn lines(indents: &[usize], contents: &[&str]) -> Vec<String> {
    let mut v = Vec::new();
    for c in contents {
        for i in indents {
            let l = format!("{}{c}\n", " ".repeat(*i));
            if !v.contains(&l) {
                v.push(l);
            }
        }
    }
    v
}
pub fn line_seq(name: &str, indents: &[usize], contents: &[&str], min: usize, max: usize) -> Seq {
    let l = lines(indents, contents);
    Seq::new(name, &l.iter().map(|s| s.as_str()).collect::<Vec<_>>(), min, max)
}

/// Every printable ASCII character, the other white space and a longer character.
fn ascii() -> Vec<&'static str> {
    const ALL: &str = " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~\n\té";
    ALL.char_indices().map(|(i, c)| &ALL[i..i + c.len_utf8()]).collect()
}

const BLOCK_TOKENS: &[&str] = &["a", " ", "\n", "- ", "? ", ": ", "-\n", "a:", "\t", "#c"];
const BLOCK_LINES: &[&str] = &[
    "a", "a:", "a: b", "-", "- a", "- a:", "- a: b", "- - a", "? a", ":", ": a", "? - a", "- ? a", "'a': b",
    "[a]: b", "&x", "!t a:", "# c", "", "a: |", ": - a", "? a: b", ": a: b", "-\ta", "a:\tb", "a: 'b", "b'",
];
const BLOCK_LINES_S: &[&str] = &["a", "a:", "a: b", "- a", "- a: b", "? a", ": a", "-"];

pub fn block(t: Lv) -> Vec<Sp> {
    vec![
        b(Seq::new("block tokens", BLOCK_TOKENS, 0, t.of([6, 7, 8]))),
        b(line_seq("block lines", &[0, 1, 2, 3], BLOCK_LINES, 1, t.of([2, 3, 3]))),
        b(line_seq("block lines at even columns", &[0, 2], BLOCK_LINES, t.of([1, 4, 4]), t.of([3, 4, 4]))),
        b(line_seq("block lines, few kinds", &[0, 1, 2], BLOCK_LINES_S, t.of([3, 4, 4]), t.of([3, 5, 6]))),
        b(line_seq("deep lines", &[0, 1, 2, 4, 5], &["a:", "- a", "a: b"], t.of([4, 5, 5]), t.of([4, 5, 6]))),
        b(line_seq("entries", &[0, 2, 4], &["-", "- a:", "a:", "a: b", "- a"], t.of([3, 4, 4]), t.of([4, 5, 6]))),
    ]
}

const FLOW_TOKENS: &[&str] = &["a", "[", "]", "{", "}", ",", ":", " ", "\n", "? ", "'b'", "-", "#c"];
const FLOW_CTX: Ctxs = &[
    ("[", "]"),
    ("{", "}"),
    ("[", "]: v"),
    ("- {", "}\n- x\n"),
    ("k: [", "]\nz: y\n"),
    ("[[", "], c]"),
    ("{a: [", "]}"),
    ("{[", "]: x}"),
    ("[{", "}, c]"),
    ("? {", "}\n: v\n"),
    ("[", ""),
    ("{", ""),
    ("a: {\n", "\n }"),
];
pub fn flow(t: Lv) -> Vec<Sp> {
    let mut v = vec![
        b(InContexts::new("flow tokens", FLOW_CTX, Seq::new("flow", FLOW_TOKENS, 0, t.of([3, 4, 5])))),
        b(Seq::new("flow sequence", FLOW_TOKENS, 0, t.of([4, 6, 6])).wrap("[", "]")),
        b(Seq::new("flow mapping", FLOW_TOKENS, 0, t.of([4, 6, 6])).wrap("{", "}")),
        b(InContexts::new(
            "flow entries",
            &[("[", "]"), ("{", "}"), ("- [x, {", "}]\n- y"), ("k:\n  {", "}")],
            Seq::new(
                "entries",
                &[
                    "a", ": ", ", ", "a: b", "? ", "\"q\":", "[b]", "{c: d}", ":c", "*x ", "&x ", "!t ", " \n ", "\n",
                    "\"q\" ", " :", "a ",
                ],
                0,
                t.of([3, 5, 5]),
            ),
        )),
    ];
    v.push(flow_lines(t));
    if t.0 == 2 {
        v.push(b(Seq::new("flow sequence, long", &["a", "[", "]", "{", "}", ",", ":", " ", "? "], 7, 8).wrap("[", "]")));
    }
    v
}

/// Line breaks at every column inside of nested flow collections inside of block collections.
fn flow_lines(t: Lv) -> Sp {
    let blocks: &[(&str, &str)] = &[("", ""), ("- a:\n    ", "\n- z\n"), ("- - ", "\n  - z\n"), ("k:\n  j: ", "\n  i: z\n"), ("? ", "\n: v\n"), ("k: &x ", "\n")];
    let wraps: &[(&str, &str)] = &[("[", "]"), ("{", "}"), ("{k: ", "}"), ("[x, ", ", y]"), ("[\n    ", "]")];
    let mut level = vec![(String::new(), String::new())];
    let mut all = level.clone();
    for _ in 0..t.of([2, 3, 4]) {
        level = level.iter().flat_map(|(a, z)| wraps.iter().map(move |(o, c)| (format!("{a}{o}"), format!("{c}{z}")))).collect();
        all.extend(level.clone());
    }
    let contexts: Vec<(String, String)> = all
        .iter()
        .flat_map(|(a, z)| blocks.iter().map(move |(o, c)| (format!("{o}{a}"), format!("{z}{c}"))))
        .collect();
    let mut inner = vec![];
    for kind in [
        "x%y", "'x%y'", "\"x%y\"", "\"x\\%y\"", "x%: y", "'x'%:y", "x:%y", "x,%y", "x%,y", "? x%: y", "? %x: y", "&a%x", "!t%x", "x #c%y", "[]%: y", "%", "'x%'", "\"%x\"", "x%#c", "*x%: y",
    ] {
        for br in ["\n", "\n ", "\n  ", "\n   ", "\n    ", "\n     ", "\n\t", "\n\n    ", "\n    \t", " \n  "] {
            for end in ["", "\n", "\n  ", "\n    "] {
                inner.push(format!("{}{end}", kind.replace('%', br)));
            }
        }
    }
    b(InContexts { name: "lines in nested flow collections".into(), contexts, inner: Box::new(List { name: "breaks".into(), items: inner }) })
}

/// Documents and faults below many collections of each kind.
pub fn at_depth(max: usize) -> Sp {
    let mut texts: Vec<String> = crate::corpus().into_iter().filter(|s| s.len() < 200).collect();
    texts.extend(BAD.iter().map(|s| s.to_string()));
    texts.retain(|s| !s.lines().any(|l| l.starts_with('%') || l.starts_with("---") || l.starts_with("...")));
    let mut items = vec![];
    for n in (1..=max).filter(|n| *n <= 10 || n.is_power_of_two()) {
        for x in &texts {
            let within = |w: usize| {
                let i = " ".repeat(w);
                x.strip_suffix('\n').unwrap_or(x).replace('\n', &format!("\n{i}"))
            };
            items.push(format!("{}{}\n- z\n", "- ".repeat(n), within(2 * n)));
            items.push(format!("{}{}\n: z\n", "? ".repeat(n), within(2 * n)));
            let mut m = String::new();
            for i in 0..n {
                m.push_str(&format!("{}a:\n", " ".repeat(i)));
            }
            items.push(format!("{m}{}{}\nz: y\n", " ".repeat(n), within(n)));
            let mut m = String::new();
            for i in 0..n {
                m.push_str(&format!("{}-\n", " ".repeat(i)));
            }
            items.push(format!("{m}{}{}\n- y\n", " ".repeat(n), within(n)));
            // one entry for all
            items.push(format!("a:\n{}a: {}\nz: y\n", " ".repeat(n), within(n + 1)));
            for (o, c) in [("[", "]"), ("{a: ", "}"), ("[{", "}]"), ("[a: ", "]")] {
                items.push(format!("{}{}{}", o.repeat(n), within(0), c.repeat(n)));
            }
        }
    }
    b(List { name: "documents and faults at depth".into(), items })
}

const SCALAR_TOKENS: &[&str] =
    &["a", "é", " ", "\n", "\n ", "\t", ":", "#", "-", ",", "'", "\"", "\\", "]", "\n\n"];
const SCALAR_CTX: Ctxs = &[
    ("", ""),
    ("k: ", "\nz: y\n"),
    ("k:\n  ", "\nz: y\n"),
    ("", ": v\n"),
    ("- ", "\n- z\n"),
    ("- - ", "\n"),
    ("[", "]"),
    ("[x, ", ", z]"),
    ("{k: ", "}"),
    ("{", ": v}"),
    ("'", "'"),
    ("k: '", "'\nz: y\n"),
    ("'", "': v\n"),
    ("['", "', z]"),
    ("\"", "\""),
    ("k: \"", "\"\nz: y\n"),
    ("- \"", "\"\n- z\n"),
    ("{\"", "\": v}"),
    ("? ", "\n: v\n"),
    ("--- ", "\n---\n"),
    ("&x !t ", "\n"),
];
pub fn scalars(t: Lv) -> Vec<Sp> {
    let mut v = vec![
        b(InContexts::new("scalar text", SCALAR_CTX, Seq::new("scalar", SCALAR_TOKENS, 0, t.of([3, 4, 5])))),
        b(InContexts::new(
            "long scalar text",
            &[("", ""), ("k: ", "\nz: y\n"), ("[", "]"), ("'", "'"), ("\"", "\"")],
            Seq::new("scalar", &["a", " ", "\n", "\n ", "\t", ":", "#", "-"], t.of([4, 5, 5]), t.of([4, 6, 7])),
        )),
        b(InContexts::new(
            "every character",
            &[
                ("", ""), ("a", ""), ("", "a"), ("a", "a"), ("a ", " a"), ("a: ", ""), ("", ": a"), ("[", "]"), ("[a", "]"), ("{", ": b}"),
                ("'", "'"), ("'a", "a'"), ("\"", "\""), ("\"a", "a\""), ("|\n a", "a"), (">\n a", "a"), ("|\n ", ""), ("#", "\na"), ("&a", " b"), ("- ", ""), ("-", ""), ("?", ""), (":", ""), ("a:", ""), ("[a:", "]"), ("[-", "]"),
            ],
            List {
                name: "characters".into(),
                items: (1u32..0x180)
                    .chain([
                        0x2000, 0x200B, 0x2028, 0x2029, 0x3000, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000,
                        0x1F600, 0x10FFFD, 0x10FFFE, 0x10FFFF,
                    ])
                    .filter_map(char::from_u32)
                    .map(String::from)
                    .collect(),
            },
        )),
        b(InContexts::new(
            "every pair of characters",
            &[("", ""), ("a", "a"), ("[a", "a]"), ("a: ", "")],
            Seq::new(
                "pair",
                &ascii(),
                2,
                t.of([2, 2, 3]),
            ),
        )),
    ];
    v.push(b(Seq::new("quoted", &["'", "''", "\"", "a", " ", "\n", ":", "#", ", ", "\\"], 0, t.of([5, 7, 7]))));
    v
}

const BS_LINES: &[&str] =
    &["\n", " \n", "  \n", "   \n", "a\n", " a\n", "  a\n", "   a\n", "    a\n", " \ta\n", "  \ta\n", "  a \n", " #c\n", "  #c\n", "#c\n", "  - b\n", "---\n", "...\n", "  \n\t\n"];
pub fn block_scalars(t: Lv) -> Vec<Sp> {
    let heads = &[
        "|", ">", "|-", ">-", "|+", ">+", "|1", ">1", "|2", ">2", "|1-", ">-1", "|2+", ">+2", "|3", "|0", "|+-", "|12", "| #c", ">#c", "| x",
        "|-\t#c", "|9",
    ];
    let ctx: Ctxs = &[
        ("", ""),
        ("", "z: y\n"),
        ("k: ", "z: y\n"),
        ("- ", "- z\n"),
        ("k:\n  j: ", "  i: h\n"),
        ("- - ", "- z\n"),
        ("? ", ": v\n"),
        ("--- ", "---\nx\n"),
        ("k: !t &a ", "z: *a\n"),
        ("k:\n  - ", "z: y"),
    ];
    let body = |n: usize, m: usize| Seq::new("lines", BS_LINES, n, m);
    // header x body, then with the last line break removed
    struct Bs {
        heads: Vec<String>,
        body: Seq,
    }
    impl Inputs for Bs {
        fn len(&self) -> u64 {
            2 * self.heads.len() as u64 * self.body.len()
        }
        fn get(&self, i: u64, out: &mut String) -> bool {
            let cut = i % 2 == 1;
            let i = i / 2;
            let h = &self.heads[(i % self.heads.len() as u64) as usize];
            let ok = self.body.get(i / self.heads.len() as u64, out);
            out.insert(0, '\n');
            out.insert_str(0, h);
            if cut {
                out.pop();
            }
            ok
        }
        fn describe(&self) -> String {
            format!("headers {:?}, bodies of {}, with and without the last line break", self.heads, self.body.describe())
        }
    }
    let hs = |h: &[&str]| h.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    vec![
        b(InContexts::new("block scalars", ctx, Bs { heads: hs(heads), body: body(0, t.of([2, 3, 3])) })),
        b(InContexts::new(
            "block scalars, long",
            t.of([&ctx[1..2], &ctx[1..3], &ctx[..5]]),
            Bs {
                heads: hs(if t.0 == 2 { &heads[..10] } else { &["|", ">", ">+", "|1"] }),
                body: Seq::new(
                    "lines",
                    &["\n", " \n", "  a\n", "   a\n", " \ta\n", "  \ta\n", "    \n", " a\n"],
                    t.of([3, 4, 4]),
                    t.of([3, 5, 6]),
                ),
            },
        )),
        b(Seq::new("block scalar tokens", &["|", ">", "-", "+", "1", " ", "\n", "a", "\t", "#", "- "], 0, t.of([5, 6, 7]))),
    ]
}

pub struct CodePoints {
    pub ctx: Vec<(String, String)>,
    pub upto: u32,
}
impl Inputs for CodePoints {
    fn len(&self) -> u64 {
        (256 * 2 + 65536 * 2 + self.upto as u64) * self.ctx.len() as u64
    }
    fn get(&self, i: u64, out: &mut String) -> bool {
        let n = self.ctx.len() as u64;
        let (a, z) = &self.ctx[(i % n) as usize];
        let i = i / n;
        let e = if i < 256 {
            format!("\\x{i:02x}")
        } else if i < 512 {
            format!("\\x{:02X}", i - 256)
        } else if i < 512 + 65536 {
            format!("\\u{:04x}", i - 512)
        } else if i < 512 + 2 * 65536 {
            format!("\\u{:04X}", i - 512 - 65536)
        } else {
            format!("\\U{:08X}", i - 512 - 2 * 65536)
        };
        out.clear();
        out.push_str(a);
        out.push_str(&e);
        out.push_str(z);
        true
    }
    fn describe(&self) -> String {
        format!(
            "code points: \\x00-\\xFF and \\u0000-\\uFFFF in both digit cases, \\U00000000-\\U{:08X}, in {:?}",
            self.upto - 1,
            self.ctx
        )
    }
}
pub fn escapes(t: Lv) -> Vec<Sp> {
    let s2 = |c: &[(&str, &str)]| c.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>();
    let any: Vec<String> = (1u32..0x180).chain([0x2028, 0xFEFF, 0xFFFF, 0x1F600]).filter_map(char::from_u32).map(String::from).collect();
    let mut bad = Vec::new();
    for (l, n) in [('x', 2usize), ('u', 4), ('U', 8)] {
        for len in 0..=n + 1 {
            for d in ["0", "4", "f", "A", "g", "+", "-", " ", "\n", "é", "\"", "\\"] {
                for p in 0..=len.min(n) {
                    let mut s = "0".repeat(len);
                    if p < len {
                        s.replace_range(p..p + 1, d);
                    }
                    bad.push(format!("\\{l}{s}"));
                }
            }
        }
        for h in ["FFFFFFFF", "80000000", "00110000", "0010FFFF", "0000D800", "0000DFFF", "0000DBFF", "7FFFFFFF", "00200000"] {
            bad.push(format!("\\{l}{h}"));
        }
    }
    let ctx: Ctxs = &[("\"", "\""), ("\"a", "b\""), ("k: \"", " \"\nz: y\n"), ("[\"", "\": v]"), ("\"", "\": v\n"), ("\"\n", "\n\""), ("\"a\n ", "\n\n b\""), ("\"", "")];
    let mut v = vec![
        b(CodePoints {
            ctx: s2(if t.0 == 2 { &[("\"", "\""), ("[\"a", "b\"]"), ("\"", "\": v\n")] } else { &[("\"", "\"")] }),
            upto: 0x112000,
        }),
        b(InContexts::new("malformed escapes", ctx, List { name: "digits".into(), items: bad })),
        b(InContexts::new(
            "every escape letter",
            ctx,
            List { name: "letters".into(), items: any.iter().map(|c| format!("\\{c}")).collect() },
        )),
        b(InContexts::new(
            "escape words",
            &[("\"", "\""), ("k: \"", "\"\nz: y\n")],
            Seq::new(
                "escapes",
                &[
                    "\\x41", "\\n", "\\ ", "\\\n", "\\\t", " ", "a", "\n", "\\\"", "\\\\", "\\/", "\\u263A", "\\U0001F600", "\\0", "\t",
                    "\\e", "\\_", "\\N", "\\P",
                ],
                0,
                t.of([3, 4, 5]),
            ),
        )),
        b(InContexts::new(
            "no escapes in other styles",
            &[("'", "'"), ("", ""), ("|\n ", "\n"), (">\n ", "\n"), ("[", "]")],
            List { name: "letters".into(), items: any.iter().map(|c| format!("a\\{c}41")).collect() },
        )),
    ];
    if t.0 > 0 {
        v.push(b(Seq::new("hexadecimal digits", &["0", "1", "9", "a", "A", "f", "F", "g", "d", "D"], 4, 4).wrap("\"\\u", "\"")));
        v.push(b(Seq::new("long hexadecimal digits", &["0", "1", "A", "d", "F"], 8, 8).wrap("\"\\U", "\"")));
    }
    v
}

pub fn anchors(t: Lv) -> Vec<Sp> {
    vec![
        b(Seq::new(
            "anchor tokens",
            &["&a ", "&b ", "*a", "*b ", " ", "\n", "- ", ": ", "x", "[", "]", ",", "---\n", "!t ", "? "],
            0,
            t.of([4, 5, 6]),
        )),
        b(Seq::new(
            "anchor lines",
            &[
                "- &a x\n", "- *a\n", "- &b\n", "- &b y\n", "- *b\n", "- &a [*a, &b y]\n", "- [&a x, *a]\n", "- {&a k: *a, *a : &b z}\n",
                "- &a\n", "- &a &b x\n", "- ! &a x\n", "- &a !t\n", "-\n  &a\n  k: *a\n", "- &a k: *a\n", "- &a *b\n", "- - &a x\n  - *a\n",
                "--- &a\n", "---\n", "...\n", "- &b { *a : c }\n", "- *a : c\n",
            ],
            1,
            t.of([3, 4, 5]),
        )),
        b(Seq::new(
            "anchored mappings",
            &[
                "&a k: &b v\n", "&a : x\n", "*a : *b\n", "k: *a\n", "k: &a\n", "&b\n", "? &a x\n", ": *a\n", ": &b\n", "  &a k: v\n", "k:\n", "  *a\n",
                "k: &a\n  &b j: *a\n", "--- &a\n", "---\n", "? *b\n", "k: !t &a x\n", "k: &a |\n  t\n", "&a [k]: *a\n",
            ],
            1,
            t.of([3, 4, 5]),
        )),
        b(List { name: "anchor names".into(), items: anchor_names() }),
    ]
}
fn anchor_names() -> Vec<String> {
    let mut v = Vec::new();
    let chars: Vec<String> = (33u32..0x180)
        .chain([0x2028, 0x3000, 0xFEFF, 0x1F600, 0x10FFFF])
        .filter_map(char::from_u32)
        .map(String::from)
        .collect();
    let mut names = chars.clone();
    names.extend(chars.iter().map(|c| format!("a{c}")));
    names.extend(chars.iter().map(|c| format!("{c}b")));
    for n in names {
        v.push(format!("- &{n} x\n- *{n}\n"));
        v.push(format!("- &{n}\n- *{n}\n"));
        v.push(format!("[&{n} x, *{n} ]"));
        v.push(format!("{{&{n} k: x, z: *{n} }}"));
        v.push(format!("&{n} k: x\nz: *{n}\n"));
        v.push(format!("&{n}: x"));
        v.push(format!("- &a x\n- &{n} y\n- *a\n- *{n}\n"));
        v.push(format!("- &{n} x\n- *{n}c\n"));
        v.push(format!("- &{n}c x\n- *{n}\n"));
    }
    v
}

pub const TAG_LINES: &[&str] = &[
    "%TAG !e! tag:e,\n", "%TAG !e! !l-\n", "%TAG ! !p-\n", "%TAG !! tag:s,\n", "%YAML 1.2\n", "%FOO bar\n", "---\n", "...\n", "--- !e!x\n",
    "--- !!str\n", "- !e!a b\n", "- !!int 1\n", "- !x\n", "- ! c\n", "- !<u:r%20> d\n", "a: !e!b\n", "# c\n", "x\n",
];
pub fn tags(t: Lv) -> Vec<Sp> {
    let nodes = &[
        "a", "'a'", "\"a\"", "|\n  a", "[a]", "{a: b}", "- a", "a: b", "", "*x", "&x a", "\n a", "\n- a", "\na: b", "\n  a: b", "? a", "[]", ",",
    ];
    let tags = &[
        "!", "!a", "!!a", "!e!a", "!e!", "!!", "!<a>", "!<!a>", "!<!>", "!<>", "!a%21", "!a%C3%A9", "!a%", "!a%4", "!a%GG", "!a%C3", "!a!b", "!a!b!c", "!<a", "!é", "!a,b", "!a#b", "!a:b", "!e!a:b", "!a[", "!a%E2%82%AC", "!a%F0%9F%98%80", "!-a!b", "!a_b!c", "!<tag:yaml.org,2002:str>", "!a%00",
    ];
    let dirs = &["", "%TAG !e! tag:e,\n---\n", "%TAG ! !p-\n---\n", "%TAG !! tag:s,\n---\n", "%TAG !e! !l-\n%TAG !a! tag:a/\n---\n", "---\n", "- x\n---\n"];
    vec![
        b(Seq::new("tag and directive lines", TAG_LINES, 1, t.of([3, 4, 5]))),
        b(Product::new("tags on nodes", &[dirs, &["", "- ", "k: ", "? ", "[", "{k: ", "{", "&y ", "- - "], tags, &[" ", "", "\n ", " &z "], nodes, &["", "\n", "]", "}", ": v", ": v}"]])),
        b(Seq::new("tag characters", &["!", "a", "e!", "<", ">", "%41", "%", " ", ",", ":", "[", "b", "-", "\n", "é"], 0, t.of([4, 5, 6])).wrap("!", "")),
        b(InContexts::new(
            "percent escapes",
            &[("!a%", " b"), ("!<a%", "> b"), ("!a%C3%", " b"), ("%TAG !e! t%", "\n--- !e!a b")],
            Seq::new("pair", &ascii(), 2, 2),
        )),
        b(InContexts::new(
            "bytes of percent escapes",
            &[("!a", " b"), ("!<a", "> b"), ("!", "z"), ("%TAG !e! t", "\n--- !e!a b")],
            Seq::new(
                "byte",
                &[
                    "%00", "%7F", "%80", "%8F", "%90", "%9F", "%a0", "%BF", "%C0", "%C1", "%C2", "%DF", "%E0", "%E1", "%EC", "%ED", "%EE", "%EF", "%f0", "%F1", "%F3", "%F4",
                    "%F5", "%F8", "%FF", "a",
                ],
                1,
                t.of([2, 4, 4]),
            ),
        )),
        document_tags(t),
        b(InContexts::new(
            "directive texts",
            &[("%", "\n--- !e!a b\n"), ("%TAG", "\n--- !e!a b\n"), ("%YAML", "\n--- a\n"), ("%TAG !e! ", "\n--- !e!a b\n")],
            Seq::new("directive", &["TAG", "YAML", " ", "!e!", "!", "1.2", "1", ".", "tag:x,", "\t", "#c", " #c", "FOO", "%41", "9999999999"], 0, t.of([3, 4, 5])),
        )),
    ]
}

/// Sequences of documents, each with directives, nodes with tags, and an end.
pub fn document_tags(t: Lv) -> Sp {
    let dirs = &[
        "", "---\n", "%TAG !e! tag:e,\n---\n", "%TAG !e! !l-\n---\n", "%TAG ! !p-\n---\n", "%TAG !! tag:s,\n---\n", "%TAG !f! tag:f,\n%TAG !e! tag:g,\n---\n",
        "%YAML 1.2\n---\n", "%FOO\n---\n",
    ];
    let nodes = &["[!e!a b, !x c]\n", "- !!str d\n- !f!g h\n", "!x a\n", "!e!y {k: !!w v}\n", "z\n"];
    let ends = &["", "...\n"];
    let mut one = vec![];
    for d in dirs {
        for n in nodes {
            for e in ends {
                one.push(format!("{d}{n}{e}"));
            }
        }
    }
    let one: Vec<&str> = one.iter().map(|x| x.as_str()).collect();
    b(Seq::new("documents with tags", &one, 1, t.of([2, 3, 3])))
}

pub fn documents(t: Lv) -> Vec<Sp> {
    vec![
        b(Seq::new(
            "document tokens",
            &["---", "...", "\n", " ", "a", "#c", "- ", "%YAML 1.2\n", "'", "|", ": ", "\t", "[", "]"],
            0,
            t.of([4, 6, 7]),
        )),
        b(Seq::new(
            "document lines",
            &[
                "---\n", "--- a\n", "...\n", "... #c\n", "... a\n", "a\n", "- a\n", "a: b\n", " ---\n", "---a\n", "# c\n", "\n", "'a\n", "b'\n", "--- |\n", " ---\n", "--- 'a\n",
                "%YAML 1.2\n", "%FOO\n", "[a,\n", "b]\n", "--- # c\n", "---\ta\n", "&a a\n", "*a\n", "\u{FEFF}a\n", "....\n", "--- - a\n", "--- a: b\n", "--- [a]\n", "a: |\n",
            ],
            1,
            t.of([3, 4, 5]),
        )),
    ]
}

pub const EDIT_TOKENS: &[&str] = &[
    " ", "\n", "\t", ":", ": ", "-", "- ", "?", "? ", "#", " #c", ",", "[", "]", "{", "}", "'", "\"", "&a ", "*a ", "!t ", "|", "---\n", "\\",
];
pub fn corpus(depth: u32) -> Sp {
    b(Edits::new("corpus neighbourhood", crate::corpus(), EDIT_TOKENS, depth))
}
/// All texts two edits away from the corpus, over few tokens.
pub fn corpus2(tokens: &[&str]) -> Sp {
    b(Edits::new("corpus neighbourhood", crate::corpus(), tokens, 2))
}
pub fn ladders(t: bool) -> Vec<Sp> {
    vec![
        b(List { name: "implicit key lengths".into(), items: ladders::keys() }),
        b(List { name: "scalar and gap lengths".into(), items: ladders::lengths() }),
        b(List { name: "indentation widths".into(), items: ladders::widths() }),
        b(List { name: "block scalar headers".into(), items: ladders::headers() }),
        b(List { name: "nesting depths".into(), items: ladders::depths(if t { 256 } else { 64 }) }),
        at_depth(if t { 32 } else { 12 }),
        b(List { name: "repetition counts".into(), items: ladders::counts() }),
        b(List { name: "long texts".into(), items: ladders::large(t) }),
    ]
}

/// All subjects together.
pub fn mixed(t: Lv) -> Vec<Sp> {
    let mut v = vec![
        b(Seq::new(
            "mixed tokens",
            &["a", " ", "\n", "- ", "? ", ": ", "[", "]", "{", "}", ",", "'", "\"", "#", "|", "&a ", "*a", "!t ", "\t", "---", "\\"],
            0,
            t.of([4, 5, 5]),
        )),
        b(line_seq("mixed lines", &[0, 1, 2], BLOCK_LINES, 1, t.of([2, 3, 3]))),
    ];
    let s = Lv(if t.0 == 2 { 1 } else { 0 });
    for f in [block, flow, scalars, block_scalars, escapes, anchors, tags, documents] {
        v.extend(f(s));
    }
    v.push(corpus(1));
    v.extend(ladders(t.0 == 2));
    v
}

/// Short texts over every kind of character a source tells apart.
pub fn source_texts(t: Lv) -> Vec<Sp> {
    vec![
        b(Seq::new("kinds of characters", &["a", "-", ".", " ", "\t", "\n", "\r", "#", ":", ",", "\0", "é"], 0, t.of([3, 4, 5]))),
        b(Seq::new("document markers", &["-", ".", " ", "\n", "\0", "a"], 0, t.of([5, 6, 7]))),
    ]
}

/// Texts in which bytes, characters, lines and columns differ.
pub fn positions(t: Lv) -> Vec<Sp> {
    let toks: &[&str] = &["a", "é", "\u{1F600}", "\r\n", "\r", "\n", " ", "- ", ": ", "#é", "\"", "[", "]", ",", "|", "\u{FEFF}", "&é ", "!é ", "\t", "'", "---"];
    let mut v = vec![
        b(Seq::new("characters and breaks", toks, 0, t.of([3, 4, 5]))),
        b(InContexts::new(
            "characters and breaks in front of nodes",
            &[("", "\nz: [y, *q]"), ("- ", "\n- 'y'\n"), ("[", "]\n--- x\n"), ("\"", "\" : &x y\n"), ("|\n ", "\n...\n{k: v}\n"), ("%é ", "\n---\n- x\n"), ("# ", "\nx: y\n")],
            Seq::new("characters", toks, 0, t.of([2, 3, 4])),
        )),
    ];
    for (from, to) in [("\n", "\r\n"), ("\n", "\r"), ("a", "é"), ("a", "\u{1F600}")] {
        for f in [block, flow, block_scalars, documents] {
            v.extend(f(Lv(0)).into_iter().map(|inner| b(Subst { inner, from, to })));
        }
        v.push(b(Subst { inner: corpus(if t.0 == 2 { 1 } else { 0 }), from, to }));
    }
    v
}

/// Comments everywhere.
pub fn commented(t: Lv) -> Vec<Sp> {
    let mut v = vec![
        b(Seq::new(
            "comment tokens",
            &["a", "- ", ": ", "? ", "[", "]", "{", "}", ",", " #c", "\n", "#", "'b'", "|", "&a ", "!t ", "\t#", "---", "...", " "],
            0,
            t.of([3, 4, 5]),
        )),
        b(Seq::new("comments between few tokens", &["a", "- ", ": ", "[", "]", ",", " #c", "\n", " ", "'b'"], 0, t.of([4, 6, 7]))),
        b(line_seq(
            "commented lines",
            &[0, 2],
            &[
                "a", "#c", "a: b #c", "a: #c", "- #c", "- a #c", "? #c", ": #c", "a: | #c", "- > #c", "'a' #c", "\"a\" : #c", "[a, #c", "b] #c", "{a: #c", "b} #c", "&a #c", "!t #c",
            ],
            1,
            t.of([2, 3, 3]),
        )),
        b(line_seq(
            "comments and documents",
            &[0],
            &[
                "--- #c", "---", "... #c", "...", "#c", " #c", "%YAML 1.2 #c", "%YAML 1.2#c", "%TAG !e! !x #c", "%TAG !e! !x#c", "%TAG !e! #c", "%F #c", "%F a #c", "%F#c #d", "%F a#c b #c #d", "%F\t#c", "%F \t a #c", "a #c", "--- a #c",
                "--- | #c", "\u{FEFF}#c", "- !e!a #c",
            ],
            1,
            t.of([2, 3, 4]),
        )),
        b(InContexts::new(
            "comment texts",
            &[("a #", "\nb: c"), ("#", ""), ("- a\n#", "\n- b"), ("[a, #", "\nb]"), ("a: | #", "\n b"), ("--- #", "\n a\n"), ("%F #", "\n---\n"), ("\"a\" #", "\n"), ("? a #", "\n: b"), ("#a\n\n #", "\r\n#c")],
            Seq::new("comment characters", &["a", "é", "\u{1F600}", "#", " ", "\t", "\r", "\n", "\0", "\u{7}", "\u{FEFF}", ":", "'", "\u{85}"], 0, t.of([2, 3, 4])),
        )),
    ];
    for (from, to) in [("\n", " #c\n"), ("\n", "\n#c\n"), ("\n", "\n    # c\n\n#d\n"), (" ", " #c\n "), ("\n", "\t#\r\n"), (",", " #,\n,")] {
        for f in [block, flow, block_scalars, tags, anchors] {
            v.extend(f(Lv(0)).into_iter().map(|inner| b(Subst { inner, from, to })));
        }
        v.push(b(Subst { inner: corpus(if t.0 == 2 { 1 } else { 0 }), from, to }));
    }
    v
}

pub fn tag_lines(t: Lv) -> Sp {
    b(Seq::new("tag and directive lines", TAG_LINES, 1, t.of([3, 4, 5])))
}

/// Nesting far beyond what recursion survives.
pub fn deep(t: Lv) -> Sp {
    let mut v = vec![];
    for n in t.of([&[1000usize] as &[usize], &[1000, 4000], &[1000, 4000, 20000]]).iter().copied() {
        for (open, mid, close) in [
            ("[", "", "]"),
            ("[", "a", ""),
            ("{a: ", "b", "}"),
            ("{a: ", "b", ""),
            ("[{a: ", "b", "}]"),
            ("{? ", "b", "}"),
            ("- ", "a", ""),
            ("? ", "a", ""),
            ("[b, a: ", "c", "]"),
            ("[", "]", "]"),
            ("- &a ", "a", ""),
            ("[&a ", "*a ", "]"),
            ("!t [", "", "]"),
        ] {
            v.push(format!("{}{mid}{}", open.repeat(n), close.repeat(n)));
        }
    }
    b(List { name: "deep nesting".into(), items: v })
}

const UNITS: &[&str] = &[
    "a", " ", "\n", "- ", "? ", ": ", "a: ", "[", "]", "{", "}", ",", "'", "\"", "#", " #", "&a ", "*a", "!t ", "|\n", "---\n", "...\n",
    "%TAG !e! x\n", "\t", "é", "\\", "&a: ", "\r", "\n  ", ">\n ", "\0", "-", ":", "a: b\n",
];
/// A few tokens over and over, up to a length.
pub struct Repeated {
    pub bytes: usize,
    pub tokens: u32,
    pub starts: &'static [&'static str],
}
pub const STARTS: &[&str] = &["", "&a a: b\n", "[", "'", "- &a b\n", "a: |\n  ", "\"", "? "];
impl Inputs for Repeated {
    fn len(&self) -> u64 {
        (UNITS.len() as u64).pow(self.tokens) * self.starts.len() as u64
    }
    fn get(&self, i: u64, out: &mut String) -> bool {
        let n = UNITS.len() as u64;
        let mut unit = String::new();
        let mut k = i;
        for _ in 0..self.tokens {
            unit.push_str(UNITS[(k % n) as usize]);
            k /= n;
        }
        out.clear();
        out.push_str(self.starts[k as usize]);
        for _ in 0..self.bytes / unit.len() {
            out.push_str(&unit);
        }
        true
    }
    fn describe(&self) -> String {
        format!("{} of {} tokens repeated up to {} bytes after {} beginnings", self.tokens, UNITS.len(), self.bytes, self.starts.len())
    }
}
/// One or two tokens over and over, then as often one or two others.
pub struct Mirrored {
    pub bytes: usize,
    pub second: u32,
}
impl Inputs for Mirrored {
    fn len(&self) -> u64 {
        (UNITS.len() as u64).pow(2 + self.second)
    }
    fn get(&self, i: u64, out: &mut String) -> bool {
        let n = UNITS.len() as u64;
        let at = |k: u64| UNITS[(i / n.pow(k as u32) % n) as usize];
        let (u, v) = (format!("{}{}", at(0), at(1)), if self.second == 1 { at(2).to_string() } else { format!("{}{}", at(2), at(3)) });
        let m = self.bytes / (u.len() + v.len());
        out.clear();
        for _ in 0..m {
            out.push_str(&u);
        }
        for _ in 0..m {
            out.push_str(&v);
        }
        true
    }
    fn describe(&self) -> String {
        format!("two of {} tokens repeated, then {}, in {} bytes", UNITS.len(), self.second, self.bytes)
    }
}
/// Long texts which repeat a few tokens.
pub fn repeated(t: Lv) -> Vec<Sp> {
    vec![
        b(Repeated { bytes: 1 << 20, tokens: 1, starts: t.of([&STARTS[..1], &STARTS[..3], STARTS]) }),
        b(Repeated { bytes: t.of([1 << 13, 1 << 16, 1 << 18]), tokens: 2, starts: t.of([&STARTS[..1], STARTS, STARTS]) }),
        b(Repeated { bytes: 1 << t.of([10, 12, 14]), tokens: 3, starts: t.of([&STARTS[..1], &STARTS[..3], STARTS]) }),
        b(Mirrored { bytes: t.of([1 << 10, 1 << 13, 1 << 14]), second: 1 }),
        b(Mirrored { bytes: t.of([1 << 8, 1 << 10, 1 << 13]), second: t.of([1, 2, 2]) }),
    ]
}

/// Patterns for `work::growth`: every token and every two tokens, after several beginnings, and
/// constructs that are numbered.
pub fn patterns() -> (Sp, Sp) {
    use crate::work::{NUMBER, START};
    let mut one = vec![];
    for start in STARTS {
        for u in UNITS {
            one.push(format!("{start}{START}{u}"));
        }
    }
    for x in [
        "- &a% b\n", "- &a% [b, *a%]\n", "k%: v\n", "? k%\n: v\n", "--- &a% b\n", "--- b%\n...\n", "- !a% b\n", "- !!a% b\n", "- !<a%> b\n", "# c%\n",
        "- 'a%'\n", "- \"a%\\n\"\n", "- |\n  a%\n", "- >-\n  a%\n", "- [a%, b]\n", "- {a%: b}\n", "- - a%\n", "- a: b%\n  c: d\n", "&a% : b\n", "!a% x: b\n",
        "a%\n", "a% \n\n", " a%", "- a # c%\n", "- a%\n\n", "'a%': b\n", "\"a%\": [b]\n", "%TAG !a% x\n---\n...\n", "%FOO a%\n---\n...\n",
    ] {
        one.push(format!("{START}{}", x.replace('%', &NUMBER.to_string()).replace(&format!("{NUMBER}TAG"), "%TAG").replace(&format!("{NUMBER}FOO"), "%FOO")));
    }
    for (start, x) in [
        ("[", "a%, "), ("[", "&a% b, "), ("- &a b\n", "- *a\n"), ("[&a b, ", "*a, "), ("{", "a%: b, "), ("{", "a%, "), ("{", "? a% : b, "), ("[", "a%: b, "), ("{", "&a% b: *a%, "),
        ("[", "'a%', "), ("[", "!a% b, "), ("{", "'a%':b, "), ("", "%TAG !a%! x\n"), ("", "%FOO a%\n"), ("a: |\n", "  a%\n"), ("a: >\n", "  a%\n\n"), ("a: '", "a%\n  "),
        ("a: \"", "a%\\\n  "), ("a: b", " c%\n "), ("[[[[[[[[", "a%, "), ("? ? ? ? ? ", "a%\n          "), ("- - - - - - ", "- a%\n            "), ("[", "{a%: ["), ("[", "# c%\n"),
        ("k: !", "a%"), ("k: &", "a%"), ("k: *", "a%"), ("%FOO ", "a%"), ("# ", "a%"), ("!<", "a%20%"), ("\"", "\\u0041%"), ("k: ", "a%:b"), ("[", "[a%], "), ("{", "a%: {b: c}, "),
    ] {
        let n = NUMBER.to_string();
        let x = x.replace('%', &n).replace(&format!("{n}TAG"), "%TAG").replace(&format!("{n}FOO"), "%FOO").replace(&format!("{n}20"), "%20");
        one.push(format!("{}{START}{x}", start));
    }
    let mut two = vec![];
    for a in UNITS {
        for b in UNITS {
            two.push(format!("{START}{a}{b}"));
        }
    }
    (b(List { name: "patterns of one token and of a numbered construct, two lengths each".into(), items: one }), b(List { name: "patterns of two tokens, two lengths each".into(), items: two }))
}

/// Anchored collections of aliases of anchored collections of aliases ..., by number of levels,
/// number of aliases in each and shape; and long scalars, tags and nested anchors copied many times.
pub fn bombs(t: Lv) -> Sp {
    let mut v = vec![];
    let levels: &[usize] = t.of([
        &[3, 24],
        &[1, 2, 3, 5, 8, 10, 14, 18, 21, 24, 30, 63, 64, 65, 200],
        &[
            1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16, 17, 18, 19, 20, 21, 22, 24, 28, 30, 31, 32, 33, 40, 62, 63, 64, 65, 66, 127, 128, 200, 500, 1000,
        ],
    ]);
    let fans: &[usize] = t.of([&[2], &[1, 2, 9, 100], &[1, 2, 3, 9, 10, 50, 100, 1000]]);
    // first line, open, one alias by its position, close; %n and %p are the numbers of this level and
    // of the one below.
    let shapes: &[(&str, &str, &str, &str)] = &[
        ("- &a0 x\n", "- &a%n [", "*a%p ,", "]\n"),
        ("- &a0 {}\n", "- &a%n {", "k%i: *a%p ,", "}\n"),
        ("- &a0 x\n", "- &a%n {", "*a%p : y%i,", "}\n"),
        ("- &a0 x\n", "- &a%n {", "*a%p : *a%p ,", "}\n"),
        ("- &a0 x\n", "- &a%n\n", "  - *a%p\n", ""),
        ("k0: &a0\n", "k%n: &a%n\n", "  j%i: *a%p\n", ""),
        ("- &a x\n", "- &a [", "*a ,", "]\n"),
        ("- &a0 !t x\n", "- !t &a%n [", "*a%p ,", "]\n"),
        ("- &a0 x\n", "- &a%n [", "[{k: *a%p }],", "]\n"),
        ("- &a0 x\n", "- &a%n [", "*a0 ,*a%p ,", "]\n"),
        ("- &a0 x\n", "- ? &a%n [", "*a%p : z,", "]\n  : y\n"),
        ("a\n---\n- &a0 x\n", "- &a%n\n  - &b%n [", "*a%p ,", "]\n"),
        ("- &a0 x\n", "- &a%n [", "&b%n.%i [*a%p ],", "]\n"),
    ];
    for (first, open, one, close) in shapes {
        for l in levels {
            for f in fans {
                if l * f > 20_000 {
                    continue;
                }
                let mut s = first.to_string();
                for n in 1..=*l {
                    let at = |x: &str, i: usize| x.replace("%n", &n.to_string()).replace("%p", &(n - 1).to_string()).replace("%i", &i.to_string());
                    s.push_str(&at(open, 0));
                    for i in 0..*f {
                        s.push_str(&at(one, i));
                    }
                    s.push_str(&at(close, 0));
                }
                // each document starts anew
                if *l < 10 && *f < 10 {
                    v.push(format!("{s}---\n{s}"));
                }
                v.push(s);
            }
        }
    }
    // one level, each node within all those before
    for n in t.of([&[100usize] as &[usize], &[100, 1000], &[100, 500, 1000, 1023]]) {
        for m in t.of([&[10usize] as &[usize], &[10, 5000], &[10, 500, 5000]]) {
            let items = |x: &str| vec![x; *m].join(",");
            for (o, c) in [("&a [", "]"), ("{k: &a ", "}"), ("{? &a ", "}"), ("&a [&b [", "]]"), ("!t &a [", "]")] {
                v.push(format!("{}[{}]{}", o.repeat(*n), items("x"), c.repeat(*n)));
                v.push(format!("- &z [{}]\n- {}[{}]{}", items("x"), o.repeat(*n), items("*z "), c.repeat(*n)));
            }
        }
    }
    for n in t.of([&[1000usize] as &[usize], &[1000, 30_000], &[1000, 30_000, 100_000]]) {
        let long = "x".repeat(*n);
        for first in [
            format!("'{long}'"),
            format!("\"{long}\\n\""),
            format!("!{long} x"),
            format!("!{long} []"),
            format!("|\n  {long}\n"),
            format!("{{k: \"\\t{long}\"}}"),
            format!("{{? \"{long}\\t\" }}"),
        ] {
            for alias in ["- *a\n", "- [*a , *a ]\n", "- *a : *a\n"] {
                v.push(format!("- &a {first}\n{}", alias.repeat(*n / 2)));
            }
        }
    }
    b(List { name: "aliases of aliases".into(), items: v })
}

const BAD: &[&str] = &[
        "]", "}", "[", "{", "[a", "{a", "[a}", "{a]", "[a]]", "{a}}", "[[a]", "{{a}", "[,]", "[a,,b]", "{,}", "{a,,b}", "[a] b", "{a} b", "[a]: b: c", "{a: b: c}", "[a]\n b", "\'a", "\"a", "'a' b", "\"a\" b", "'a'b", "'a\n---\nb'", "\"a\n...\nb\"", "\"\\q\"", "\"\\x4\"", "@a", "`a", "%a", "*", "&", "*a b", "&a &b c", "!a !b c", "&a *b", "!a *b", "*undefined", "! ! a", "!<a", "!a!b!c", "!u!a", "|x\n a", ">0\n a", "|10\n a", "|\n  a\n b", "| a\n b", "|#c\n b", "a: b: c", "a: - b", "a: b\n c: d", "a\nb: c", "'a\nb': c", "[a,\nb]: c", "- a\n b", "- a\n- b\nc", "- a\nb: c", "a: b\n- c", "a:\n  b: c\n d: e", "a:\n  - b\n - c", "\ta: b\n\tc: d", "-\t- a", "- a\n\t- b", "a:\n\tb: c", "?\ta: b", "a: b\n\tc: d", "# c\n]", "[#c\n]", "[a #c", "[a\n#c\n, b", "{a: #c}", "? a\n: b: c\nd", ", a", "a: , b]", "- , a", "--- a\n... b", "%YAML 1.2\na", "%YAML 1.2\n%YAML 1.2\n---\na", "%TAG ! a\n%TAG ! b\n---\nc", "%YAML 2.0 x\n---\n", "%TAG a b\n---\n", "\u{1}", "a\u{0}b", "a\u{7f}", "\u{85}]",
];
/// Faults in every kind of place.
pub fn malformed() -> Vec<String> {
    let ctx: &[(&str, &str)] = &[
        ("", ""), ("", "\n"), ("- ", "\n"), ("- x\n- ", "\n- y\n"), ("k: ", "\n"), ("k: ", "\nz: y\n"), ("k:\n  ", "\nz: y\n"), ("? ", "\n: v\n"),
        ("--- ", "\n"), ("a\n---\n", "\n"), ("k:\n- ", "\n"), ("- - ", "\n  - y\n"), ("[", "]"), ("{", "}"), ("{k: ", "}"), ("[x, ", ", y]"), ("- [", "]\n- y\n"),
        ("&x ", "\n"), ("!t\n", "\n"),
    ];
    let mut v = vec![];
    for (a, z) in ctx {
        for x in BAD {
            v.push(format!("{a}{x}{z}"));
        }
    }
    v
}

/// Strings to resolve by the core schema.
pub fn scalar_strings(t: Lv) -> Vec<Sp> {
    let words: Vec<String> = [
        "", "~", "null", "Null", "NULL", "true", "True", "TRUE", "false", "False", "FALSE", ".inf", ".Inf", ".INF", "+.inf", "-.inf", "-.Inf", "-.INF",
        ".nan", ".NaN", ".NAN", "inf", "Infinity", "NaN", "nan", "yes", "No", "on", "off", "y", "n", "0", "-0", "+0", "00", "0x0", "0o0", "0b1", "0X1", "0O7",
        "0x1F", "0xfF", "0o17", "0o18", "0xG", "1_000", "1,000", "1e3", "1E3", "1e+3", "1e-3", "1.5", ".5", "5.", "-.5", "+5.", "1.5e3", "1.e5", ".e5", "e5", "1e", "1e+",
        "1e400", "1e-400", "0.1", "1e308", "5e-324", "1.7976931348623157e308", "9007199254740993", "1.0000000000000002", "190:20:30", "2001-12-14", "12e03", "-2E+05",
        "1 2", "- 1", "+-1", "--1", "1-", "1.2.3", "0.", "0e0", "0x", "0o", "0x-1", "0x+1", "0o-1", "+0x1", "-0o7", "<<", "=", "\u{661}", "\u{ff11}", "1\u{a0}",
    ]
    .iter()
    .map(|x| x.to_string())
    .collect();
    let mut big = vec![];
    for base in [i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, u32::MAX as i128, 1 << 53, i128::MAX, 10i128.pow(19), 0] {
        for d in -2..=2i128 {
            let n = base.saturating_add(d);
            let m = n.unsigned_abs();
            for z in ["", "0", "000000000000000000000000"] {
                big.push(format!("{}{z}{m}", if n < 0 { "-" } else { "" }));
                big.push(format!("{}{z}{m}", if n < 0 { "-" } else { "+" }));
                big.push(format!("0x{z}{m:x}"));
                big.push(format!("0x{z}{m:X}"));
                big.push(format!("0o{z}{m:o}"));
                big.push(format!("-0x{z}{m:x}"));
                big.push(format!("{z}{m}."));
                big.push(format!("{z}{m}e0"));
                big.push(format!("{m}0"));
                big.push(format!("0x{m:x}0"));
            }
        }
    }
    let tok: &[&str] = &["0", "1", "7", "9", "+", "-", ".", "e", "E", "x", "o", "a", "F", "_", "~", "n", "i", " ", ":", "N", "u"];
    vec![
        b(Seq::new("number characters", &["0", "1", "9", "+", "-", ".", "e", "x", "o", "a"], 0, t.of([4, 6, 7]))),
        b(Seq::new("resolution characters", tok, 0, t.of([3, 4, 5]))),
        b(Seq::new("word characters", &["n", "N", "u", "U", "l", "L", ".", "a", "A", "i", "f", "F"], 0, t.of([3, 5, 6]))),
        b(Seq::new("truth characters", &["t", "T", "r", "R", "u", "U", "e", "E", "s", "S"], 0, t.of([3, 5, 6]))),
        b(Edits::new("words", words, tok, t.of([1, 1, 2]))),
        b(Edits::new("large numbers", big, tok, t.of([0, 1, 1]))),
    ]
}

/// Texts whose events every sequence of operations is tried on.
pub fn operated(t: Lv) -> Vec<Sp> {
    vec![
        b(Seq::new("short texts", &["a", "\n", "- ", ": ", "[", "]", "---\n", "...\n", "\"", "&a ", "*a "], 0, t.of([3, 4, 5]))),
        b(List { name: "corpus".into(), items: crate::corpus().into_iter().filter(|s| s.len() < t.of([60, 120, 400])).collect() }),
    ]
}

/// Documents to deserialize: trees of scalars of every type, in which the names of fields and
/// variants occur, and texts over the same words.
pub fn typed(t: Lv) -> Vec<Sp> {
    use crate::typed::Trees;
    let keys: &[&str] = &["a", "b", "Unit", "Newtype", "Tuple", "Struct", "3", "~"];
    vec![
        b(Trees::new(&["1", "-1", "300", "a", "b", "Unit", "Struct", "~", "true", "1.5", "'1'", "\"~\""], keys, t.of([2, 3, 4]))),
        b(Trees::new(&["1", "a", "~", "''", "1.5", "Unit", "300"], &["a", "b", "Newtype", "Tuple", "Struct"], t.of([3, 4, 4]))),
        b(Trees::new(&["1", "Unit"], &["a", "b"], t.of([4, 6, 7]))),
        b(Seq::new(
            "words and indicators",
            &["[", "]", "{", "}", ", ", ": ", "\n", "- ", "1", "a", "Unit", "&a ", "*a ", "~", "!t ", "--- ", "!!str ", "#"],
            0,
            t.of([3, 4, 5]),
        )),
        b(Seq::new("nested entries", &["a:", "b:", " 1", " Unit", "\n", "\n  ", "- ", " &a", " *a"], 0, t.of([4, 6, 7]))),
    ]
}
/// Numbers around the limits of every integer type, in every notation, and all small ones.
pub fn numbers(t: Lv) -> Vec<Sp> {
    let mut v = vec![];
    for p in [7u32, 8, 15, 16, 31, 32, 52, 53, 62, 63, 64, 65, 127] {
        for d in -2i128..=2 {
            for m in [(1i128 << (p - 1)).checked_mul(2).map_or(i128::MAX, |x| x).saturating_add(d)] {
                v.extend([
                    format!("{m}"), format!("-{m}"), format!("+{m}"), format!("0{m}"), format!("-00{m}"), format!("0x{m:x}"), format!("0x0{m:X}"), format!("0o{m:o}"),
                    format!("{m}.0"), format!("{m}e0"), format!("'{m}'"), format!("\"{m}\""), format!("!!int {m}"), format!("!!int -{m}"), format!("!!float {m}"),
                    format!("!!str {m}"), format!("!x {m}"), format!("!!int 0x{m:x}"), format!("-{m}."), format!("|-\n  {m}"),
                ]);
            }
        }
    }
    let all: Vec<String> = (-70000i64..=140000).map(|i| i.to_string()).collect();
    vec![
        b(List { name: "numbers around powers of two".into(), items: v }),
        b(List { name: "small integers".into(), items: all[..if t.0 == 0 { 2000 } else { all.len() }].to_vec() }),
    ]
}
/// Nesting around the deepest that is deserialized.
pub fn limit(n: usize) -> Sp {
    let mut v = vec![];
    for k in [1, n - 1, n, n + 1, 4 * n, 5000] {
        for (open, mid, close) in [("[", "1", "]"), ("{a: ", "1", "}"), ("- ", "1", ""), ("[{a: ", "1", "}]"), ("{b: ", "Unit", "}"), ("[", "", ""), ("[a, ", "b", ", c]"), ("[[], ", "[]", "]"), ("{? ", "a", "}")] {
            v.push(format!("{}{mid}{}", open.repeat(k), close.repeat(k)));
            v.push(format!("{{a: 1, c: {}{mid}{}}}", open.repeat(k), close.repeat(k)));
            v.push(format!("[{0}{mid}{1}, {0}{mid}{1}]", open.repeat(k), close.repeat(k)));
        }
    }
    b(List { name: "nesting around the limit".into(), items: v })
}

/// Strings to serialize.
pub fn written(t: Lv) -> Vec<Sp> {
    use crate::written::Words;
    let all: &[&str] = &[
        "a", "bb", " ", "\n", "\t", "\r", "\"", "\\", "'", "---", "...", "#", ":", "- ", "\u{85}", "\u{a0}", "é", "e\u{301}", "\u{1F468}\u{200D}\u{1F469}", "\u{FEFF}", "\u{2028}",
        "n", "x41", "u0041", "U00000041", "%", "\0", "~", "1", "\u{7f}", "|",
    ];
    let words = |w: &[&str], g: &[&str], max| b(Words { words: w.iter().map(|s| s.to_string()).collect(), gaps: g.iter().map(|s| s.to_string()).collect(), max });
    vec![
        b(Seq::new("string parts", all, 0, t.of([2, 4, 4]))),
        b(Seq::new("blanks and breaks", &["a", " ", "\n", "\t", "\r", "\\", "\"", "---"], 0, t.of([3, 6, 7]))),
        words(&["a", "---", "...", "bbbbb", "\\", "ééé"], &["", " ", "  ", "\n", " \n"], t.of([2, 4, 4])),
        words(&["a", "---", "#cc", "dddddddddd"], &[" ", " \t"], t.of([3, 5, 7])),
        b(List { name: "corpus".into(), items: crate::corpus() }),
    ]
}

/// Every text of a space in other surroundings: something in front, so many columns before each
/// further line, something behind.
pub struct Within {
    pub inner: Sp,
    pub before: &'static str,
    pub indent: usize,
    pub behind: &'static str,
}
impl Inputs for Within {
    fn len(&self) -> u64 {
        self.inner.len()
    }
    fn get(&self, i: u64, out: &mut String) -> bool {
        let mut s = String::new();
        if !self.inner.get(i, &mut s) {
            return false;
        }
        out.clear();
        out.push_str(self.before);
        let text = if self.behind.starts_with('\n') { s.strip_suffix('\n').unwrap_or(&s) } else { &s };
        for (k, l) in text.split('\n').enumerate() {
            if k > 0 {
                out.push('\n');
                // blank lines stay empty
                if !l.is_empty() {
                    out.extend(std::iter::repeat_n(' ', self.indent));
                }
            }
            out.push_str(l);
        }
        out.push_str(self.behind);
        true
    }
    fn describe(&self) -> String {
        format!("between {:?} and {:?}, indented by {}: {}", self.before, self.behind, self.indent, self.inner.describe())
    }
}
/// Surroundings: documents, block collections, flow collections.
pub const AMID_DOCUMENTS: &[(&str, usize, &str)] = &[
    ("x: [y]\n---\n", 0, ""),
    ("|\n x\n...\n", 0, "\n...\n# c\n--- [a: b]\n"),
    ("# c\n%TAG !e! !x-\n--- # d\n", 0, "\n--- !e!a\n"),
    ("--- &a x\n---\n", 0, "\n---\n"),
];
pub const AMID_BLOCKS: &[(&str, usize, &str)] = &[
    ("- ", 2, "\n- z\n"),
    ("k:\n  ", 2, "\nz: y\n"),
    ("? - ", 4, "\n: z\n"),
    ("- x: y\n  k:\n  - ", 4, "\n  z: y\n"),
    ("- - 'x'\n  -\n     ", 5, "\n- &z y\n"),
];
pub const AMID_FLOWS: &[(&str, usize, &str)] = &[
    ("[", 0, "]"),
    ("{", 0, "}"),
    ("k: [x, {y: ", 1, ", z}]\n"),
    ("- [", 2, " : z, 'x':y]\n- z\n"),
    ("{? ", 0, " : [x]}\n"),
    ("[[{k: [", 0, "]}], z]"),
];
pub fn corpus_amid(amid: &[(&'static str, usize, &'static str)]) -> Vec<Sp> {
    amid.iter().map(|&(before, indent, behind)| b(Within { inner: corpus(1), before, indent, behind })).collect()
}
