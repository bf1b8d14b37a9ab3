//! Generators for Hyper IR modules with known structure, and for their layout.
use crate::choice::Src;
use crate::text::TextMap;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum TK {
    Num,
    Hex,
    Str,
    Local,
    Global,
    Dbg,
    Type,
    Ident,
    Mod,
    Punct,
    Declare,
    Define,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum R {
    Plain,
    Decl,
    Def,
    Use,
}
#[derive(Clone, Debug)]
pub struct Tok {
    pub k: TK,
    pub s: String,
    /// Role of a symbol token. For identifiers: Def/Use makes it a basic block label.
    pub r: R,
    /// part of a malformed statement
    pub bad: bool,
    /// free choice used to resolve the name later
    draw: u64,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum It {
    T(usize),
    Nl,
}
#[derive(Clone, Debug)]
pub struct Instr {
    pub first: usize,
    pub opcode: usize,
    pub last: usize,
    pub target: Option<usize>,
    pub refs: Vec<usize>,
    pub dbg: Option<usize>,
    pub branching: bool,
    pub flagged: bool,
}
#[derive(Clone, Debug)]
pub struct Block {
    pub label: Option<(usize, usize)>,
    pub instrs: Vec<Instr>,
}
#[derive(Clone, Debug)]
pub struct Func {
    pub define: usize,
    pub name: usize,
    pub open: usize,
    pub close: usize,
    pub blocks: Vec<Block>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SK {
    Global,
    Decl,
    Func,
    Deps,
    Dbg,
    Bad,
    /// malformed and possibly only detected at the next token (unterminated function body)
    BadOpen,
}
#[derive(Clone, Debug)]
pub struct Stmt {
    pub kind: SK,
    /// token range (exclusive end)
    pub toks: (usize, usize),
}
#[derive(Clone, Debug, Default)]
pub struct Module {
    pub toks: Vec<Tok>,
    pub items: Vec<It>,
    pub funcs: Vec<Func>,
    pub stmts: Vec<Stmt>,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    /// names are used, defined and redefined arbitrarily
    pub messy: bool,
    pub unicode: bool,
    /// also generate branch instructions whose targets cannot be extracted
    pub irregular: bool,
    pub max_stmts: usize,
    pub avg_stmts: u64,
    pub max_instrs: usize,
    pub max_blocks: usize,
    /// weights: global, decl, func, deps, dbg, bad
    pub w: [u64; 6],
    /// share local names between functions
    pub few_names: bool,
    /// prefer names ending in a number
    pub numbered: bool,
    /// random strings as annotation values may hold "path:line"
    pub rich_soup: bool,
    /// redefinition of function names allowed
    pub dup_funcs: bool,
    pub big_numbers: bool,
    /// occasionally generate long functions, argument lists and branch target lists
    pub large: bool,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            messy: false,
            unicode: false,
            irregular: false,
            max_stmts: 10,
            avg_stmts: 5,
            max_instrs: 6,
            max_blocks: 5,
            w: [3, 3, 5, 1, 3, 0],
            few_names: true,
            numbered: false,
            rich_soup: true,
            dup_funcs: true,
            big_numbers: false,
            large: true,
        }
    }
}

pub const TYPES: &[&str] =
    &["int32", "void", "int1", "int8", "int16", "int64", "float32", "float64", "data128", "ptr"];
pub const MODS: &[&str] = &["exported", "async", "memberfunc", "noreturn", "nosideeffects", "pure"];
const PUNCT: &[char] = &[',', '[', ']', '(', ')', '<', '>', '=', ';', '*', '.', '{', '}', ':'];
const IDENTS: &[&str] = &[
    "x", "align", "to", "label", "nullptr", "on", "depends", "br", "phi", "switch", "int", "int33", "brx", "ptr2",
    "declares", "Define", "overflow", "inbounds", "a::b", "_", "true", "Int32", "cont", "default", "voidx", "pure_",
    "depend", "definex", "x0x1", "float", "data12", "int128", "asyncx", "e5", "null", "undef",
    "cold", "noinline", "inline", "const", "readonly", "extern", "internal", "private", "global", "constant", "false", "poison", "real", "vec", "int24", "uint8", "object", "array",
];
const OPCODES: &[&str] = &[
    "ret", "call", "load", "store", "add", "brx", "label", "getelementptr", "phi2", "switch_", "br2", "overflow",
    "cont", "x", "abr_", "callBr", "unreachable", "Switch", "PHI", "phibr_x", "default", "overflow", "on", "depends",
    "aphi", "xswitch", "brr", "phi_", "bR", "sw::itch", "x::br_", "_",
];
const OVERBR: &[&str] = &["saddbr", "ssubbr", "smulbr", "uaddbr", "xbr", "_br", "castbr", "condbr", "x::br", "usubbr", "switchbr", "phibr", "brbr"];
const FSTEMS: &[&str] = &["f", "foo::bar", "_2_test", "fn_", "main", "F9a", "f::", "f:::x", "a_function_with_a_rather_long_name_"];
const FSTEMS_U: &[&str] = &["fé", "f变量", "f𝒳x", "fnaïve_", "fß::ü", "fx²y", "fⅧ_"];
const GSTEMS: &[&str] = &["g", "", "tbl::x", "str_", "G::", "global", "g::::y_"];
const GSTEMS_U: &[&str] = &["gé", "g变", "g𝒳", "gß::ü_", "g٣b"];
const DSTEMS: &[&str] = &["", "proxy_", "f", "d::x", "addr_", "d:::y"];
const DSTEMS_U: &[&str] = &["é", "变", "𝒳_", "x²y"];
const LSTEMS: &[&str] = &["v", "arg", "", "x_", "a::b", "v30a", "res_", "l:::z"];
const LSTEMS_U: &[&str] = &["é", "变量", "𝒳x", "vß::ü", "v٣b"];
const BSTEMS: &[&str] = &[
    "bb_", "loop", "body_", "done::x", "label", "cont", "overflow", "default", "on", "br", "switch_", "elseIsNull_",
    "phi", "_", "node", "edge", "graph", "digraph", "subgraph", "strict", "Node", "n", "s",
];
const BSTEMS_U: &[&str] = &["é", "变量", "𝒳x", "bß::ü", "bⅧ_"];
const NUMS: &[u64] = &[1, 0, 2, 3, 4, 5, 7, 9, 10, 11, 12, 20, 99, 100, 101, 999, 1000];
const STRS: &[&str] = &[
    "", "abc", "./test.cpp:12", "some data", "# no comment", "@f %v1 !1", "a,b{c}", "x:y", "declare", "$?^", "tab\there",
];
const STRS_U: &[&str] = &["é", "変数", "🦀 crab", "𝒳", "a\u{301}", "„quoted“", "€ 12"];
const COMMENTS: &[&str] = &[
    "", " comment", " @f %v1 bb_1 !1", "\"", " declare void @f()", "##", " }", "\t{", " br bb_1", " $%&?", "!",
];
const COMMENTS_U: &[&str] = &[" é", " 変数 @g", " 🦀🦀", "𝒳", " ä\u{301}", "„“"];
pub const ILLEGAL: &[&str] = &["$", "?", "^", "-", "+", "/", "|", "&", "~", "'", "`", "\\", "$$", "?\\?"];
pub const ILLEGAL_U: &[&str] = &["€", "🦀", "\u{a0}", "“", "\u{301}"];

fn is_word(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum NameKind {
    Func,
    Gvar,
    Dbg,
    Local,
    Label,
}

/// Letters and underscores
fn random_word(s: &mut Src) -> String {
    const C: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
    let mut t = String::new();
    while t.is_empty() || s.more(t.len(), 24, 6) {
        t.push(*s.pick(C) as char);
    }
    t
}

/// Printable ASCII characters other than quotes
fn random_chars(s: &mut Src) -> String {
    let mut t = String::new();
    while s.more(t.len(), 40, 8) {
        let c = (b' ' + s.idx(95) as u8) as char;
        t.push(if c == '"' { '\\' } else { c });
    }
    t
}

pub fn random_name(s: &mut Src, k: NameKind, cfg: &Cfg) -> String {
    let (plain, uni, sigil) = match k {
        NameKind::Func => (FSTEMS, FSTEMS_U, "@"),
        NameKind::Gvar => (GSTEMS, GSTEMS_U, "@"),
        NameKind::Dbg => (DSTEMS, DSTEMS_U, "!"),
        NameKind::Local => (LSTEMS, LSTEMS_U, "%"),
        NameKind::Label => (BSTEMS, BSTEMS_U, ""),
    };
    let word: String;
    let stem = if cfg.unicode && s.chance(1, 3) {
        *s.pick(uni)
    } else if s.chance(1, 12) {
        word = random_word(s);
        &word[..]
    } else {
        *s.pick(plain)
    };
    let numbered = if cfg.numbered { s.chance(7, 8) } else { s.chance(1, 2) };
    let num = if numbered || stem.ends_with(':') {
        if cfg.big_numbers && s.chance(1, 8) {
            *s.pick(&[9223372036854775806u64, 9223372036854775807, 4294967296, 999999999999])
        } else {
            *s.pick(NUMS)
        }
        .to_string()
    } else {
        String::new()
    };
    format!("{sigil}{stem}{num}")
}

struct B<'a> {
    s: &'a mut Src,
    cfg: &'a Cfg,
    m: Module,
    fpool: Vec<String>,
    gpool: Vec<String>,
    dpool: Vec<String>,
    lpool: Vec<String>,
    bpool: Vec<String>,
    taken: BTreeSet<String>,
    made: Vec<(NameKind, String)>,
    bad_no: usize,
    in_bad: bool,
    func_defs: BTreeSet<String>,
    local_defs: Vec<String>,
}

impl B<'_> {
    fn t(&mut self, k: TK, s: &str, r: R) -> usize {
        self.td(k, s, r, 0)
    }
    fn td(&mut self, k: TK, s: &str, r: R, draw: u64) -> usize {
        self.m.toks.push(Tok { k, s: s.to_string(), r, bad: self.in_bad, draw });
        let i = self.m.toks.len() - 1;
        self.m.items.push(It::T(i));
        i
    }
    fn p(&mut self, c: char) -> usize {
        self.t(TK::Punct, &c.to_string(), R::Plain)
    }
    fn id(&mut self, s: &str) -> usize {
        self.t(TK::Ident, s, R::Plain)
    }
    fn nl(&mut self) {
        self.m.items.push(It::Nl);
    }
    fn ty(&mut self) -> usize {
        let t = *self.s.pick(TYPES);
        self.t(TK::Type, t, R::Plain)
    }
    fn num(&mut self) -> usize {
        let n = if self.s.chance(1, 20) {
            self.s.pick(&["4294967296", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456"]).to_string()
        } else {
            self.s.pick(NUMS).to_string()
        };
        self.t(TK::Num, &n, R::Plain)
    }
    fn str_text(&mut self) -> String {
        if self.s.chance(1, 10) {
            return format!("\"{}\"", random_chars(self.s));
        }
        let t = if self.cfg.unicode && self.s.chance(1, 3) { *self.s.pick(STRS_U) } else { *self.s.pick(STRS) };
        format!("\"{t}\"")
    }
    fn gl_use(&mut self) -> usize {
        let d = self.s.below(1 << 16);
        self.td(TK::Global, "@", R::Use, d)
    }
    fn loc_use(&mut self) -> usize {
        let d = self.s.below(1 << 16);
        self.td(TK::Local, "%", R::Use, d)
    }
    fn dbg_use(&mut self) -> usize {
        let d = self.s.below(1 << 16);
        self.td(TK::Dbg, "!", R::Use, d)
    }
    fn lab_use(&mut self) -> usize {
        let d = self.s.below(1 << 16);
        self.td(TK::Ident, "", R::Use, d)
    }
    /// One arbitrary token; `dbg` says whether debug references are allowed.
    fn soup_tok(&mut self, dbg: bool, first: bool) {
        let rich = self.cfg.rich_soup;
        match self.s.weighted(&[
            5,
            4,
            5,
            4,
            2,
            2,
            if rich { 1 } else { 0 },
            if rich { 1 } else { 0 },
            if dbg { 1 } else { 0 },
            3,
            1,
        ]) {
            0 => {
                self.loc_use();
            }
            1 => {
                self.ty();
            }
            2 => {
                self.gl_use();
            }
            3 => {
                self.num();
            }
            4 => {
                let t = self.str_text();
                self.t(TK::Str, &t, R::Plain);
            }
            5 => {
                let mut t = *self.s.pick(IDENTS);
                if self.cfg.unicode && self.s.chance(1, 6) {
                    t = "é変𝒳";
                }
                self.id(t);
            }
            6 => {
                let t = *self.s.pick(MODS);
                self.t(TK::Mod, t, R::Plain);
            }
            7 => {
                if self.s.chance(1, 2) {
                    self.t(TK::Define, "define", R::Plain);
                } else {
                    self.t(TK::Declare, "declare", R::Plain);
                }
            }
            8 => {
                self.dbg_use();
            }
            9 => {
                let n = if first { PUNCT.len() - 1 } else { PUNCT.len() };
                let c = PUNCT[self.s.idx(n)];
                self.p(c);
            }
            _ => {
                let h = *self.s.pick(&["0x1", "0xDead0123beef", "0x0", "0xfff", "0xFFFFFFFFFFFFFFFFFFFF"]);
                self.t(TK::Hex, h, R::Plain);
            }
        }
    }
    fn soup(&mut self, max: usize, dbg: bool, first_restricted: bool) {
        let mut n = 0;
        while self.s.more(n, max, 3) {
            self.soup_tok(dbg, first_restricted && n == 0);
            n += 1;
        }
    }
    fn fresh(&mut self, k: NameKind) -> String {
        let mut n = random_name(self.s, k, self.cfg);
        // sometimes a name that differs from another one only in case
        let mine: Vec<&String> = self.made.iter().filter(|x| x.0 == k).map(|x| &x.1).collect();
        if !mine.is_empty() && self.s.chance(1, 10) {
            let mut t: Vec<char> = self.s.pick(&mine).chars().collect();
            let letters: Vec<usize> = (0..t.len()).filter(|i| t[*i].is_ascii_alphabetic()).collect();
            if !letters.is_empty() {
                let i = *self.s.pick(&letters);
                t[i] = (t[i] as u8 ^ 0x20) as char;
                n = t.into_iter().collect();
            }
        }
        let mut i = 0;
        while self.taken.contains(&n) || (k == NameKind::Label && (TYPES.contains(&&n[..]) || n == "declare" || n == "define")) {
            i += 1;
            // letters in front of the number keep numbered names numbered
            n = random_name(self.s, k, self.cfg);
            if i > 6 {
                let sig = if k == NameKind::Label { 0 } else { 1 };
                let body: String = n.chars().skip(sig).collect();
                n = format!("{}z{}z{}", &n[..sig], i, body);
            }
        }
        self.taken.insert(n.clone());
        self.made.push((k, n.clone()));
        n
    }
    fn pool(&mut self, k: NameKind, n: usize) -> Vec<String> {
        let mut v = vec![];
        for _ in 0..n {
            let x = self.fresh(k);
            v.push(x);
        }
        v
    }
    fn def_name(&mut self, k: NameKind) -> String {
        if self.cfg.messy {
            let p = match k {
                NameKind::Func => &self.fpool,
                NameKind::Gvar => &self.gpool,
                NameKind::Dbg => &self.dpool,
                NameKind::Local => &self.lpool,
                NameKind::Label => &self.bpool,
            };
            let i = self.s.idx(p.len());
            p[i].clone()
        } else if (k == NameKind::Local || k == NameKind::Label) && self.cfg.few_names {
            // unique inside of the function, shared between functions
            let p = if k == NameKind::Local { self.lpool.clone() } else { self.bpool.clone() };
            let i = self.s.idx(p.len());
            for o in 0..p.len() {
                let c = &p[(i + o) % p.len()];
                if !self.local_defs.contains(c) {
                    let c = c.clone();
                    self.local_defs.push(c.clone());
                    return c;
                }
            }
            let c = self.fresh(k);
            self.local_defs.push(c.clone());
            c
        } else {
            let c = self.fresh(k);
            self.local_defs.push(c.clone());
            c
        }
    }
    /// Usual bounds of a repetition (maximum, average), or rarely larger ones
    fn many(&mut self, max: usize, avg: u64) -> (usize, u64) {
        if self.cfg.large && self.s.chance(1, 25) {
            if self.s.chance(1, 4) {
                (70, 45)
            } else {
                (18, 10)
            }
        } else {
            (max, avg)
        }
    }
    fn args(&mut self, is_def: bool) {
        self.p('(');
        let mut n = 0;
        let (max, avg) = self.many(4, 1);
        while self.s.more(n, max, avg) {
            if n > 0 {
                self.p(',');
            }
            self.ty();
            if is_def {
                let name = self.def_name(NameKind::Local);
                self.t(TK::Local, &name, R::Def);
            } else {
                let i = self.s.idx(self.lpool.len() + 1);
                let name = if i == 0 { "%".to_string() } else { self.lpool[i - 1].clone() };
                self.t(TK::Local, &name, R::Plain);
            }
            n += 1;
        }
        self.p(')');
    }
    fn signature(&mut self, role: R, name: &str) -> usize {
        let mut n = 0;
        let (max, avg) = self.many(3, 1);
        while self.s.more(n, max, avg) && (avg > 1 || self.s.chance(1, 2)) {
            let t = *self.s.pick(MODS);
            self.t(TK::Mod, t, R::Plain);
            n += 1;
        }
        self.ty();
        let id = self.t(TK::Global, name, role);
        self.args(role == R::Def);
        id
    }
    fn operand(&mut self) {
        match self.s.weighted(&[8, 4, 1, 1, 2]) {
            0 => {
                self.loc_use();
            }
            1 => {
                self.num();
            }
            2 => {
                self.id("true");
            }
            3 => {
                self.t(TK::Str, "\"a, [b]\"", R::Plain);
            }
            _ => {
                self.gl_use();
            }
        }
    }
    /// `type operand`, now and then less or more than that
    fn operands(&mut self) {
        let k = if self.cfg.rich_soup { self.s.idx(8) } else { 0 };
        if k != 1 {
            self.ty();
        }
        self.operand();
        if k == 2 {
            self.operand();
        } else if k == 3 {
            let mut n = 0;
            while n == 0 || self.s.more(n, 6, 2) {
                self.p(',');
                self.ty();
                self.operand();
                n += 1;
            }
        }
    }
    fn instr(&mut self) -> Instr {
        let first = self.m.toks.len();
        let target = if self.s.chance(1, 3) {
            self.ty();
            let n = self.def_name(NameKind::Local);
            let t = self.t(TK::Local, &n, R::Def);
            self.p('=');
            Some(t)
        } else {
            None
        };
        let opcode = self.m.toks.len();
        let mut refs = vec![];
        let (mut branching, mut flagged) = (false, false);
        let kind = self.s.weighted(&[6, 4, 3, 2, 2, 3, if self.cfg.irregular { 4 } else { 0 }]);
        match kind {
            0 => {
                let mut op = *self.s.pick(OPCODES);
                if self.cfg.unicode && self.s.chance(1, 10) {
                    op = "é_op";
                }
                let cont = self.cfg.rich_soup && self.s.chance(1, 25);
                if cont {
                    op = "label";
                }
                self.id(op);
                if cont {
                    // looks like the end of a switch
                    self.p('=');
                    self.id("bb_1");
                } else if self.cfg.rich_soup && self.s.chance(1, 12) {
                    // looks like the rest of a branch, but is not a branch instruction
                    if self.s.chance(1, 2) {
                        self.ty();
                        self.operand();
                    }
                    self.p(',');
                    if self.s.chance(2, 3) {
                        self.id("cont");
                        self.p('=');
                        self.id("bb_1");
                        self.p(',');
                        self.id("overflow");
                        self.p('=');
                        self.id("bb_2");
                    } else {
                        self.id("default");
                        self.p('=');
                        self.id("bb_1");
                        self.p(',');
                        self.ty();
                        self.num();
                        self.id("label");
                        self.p('=');
                        self.id("bb_2");
                    }
                } else {
                    self.soup(8, false, true);
                }
            }
            1 => {
                branching = true;
                self.id("br");
                refs.push(self.lab_use());
            }
            2 => {
                branching = true;
                self.id("br");
                self.t(TK::Type, "int1", R::Plain);
                self.operand();
                self.p(',');
                refs.push(self.lab_use());
                self.p(',');
                refs.push(self.lab_use());
            }
            3 => {
                branching = true;
                let op = *self.s.pick(OVERBR);
                self.id(op);
                let mut n = 0;
                let (max, avg) = self.many(3, 1);
                while n == 0 || self.s.more(n, max, avg) {
                    if n > 0 {
                        self.p(',');
                    }
                    self.operands();
                    n += 1;
                }
                self.p(',');
                self.id("cont");
                self.p('=');
                refs.push(self.lab_use());
                self.p(',');
                self.id("overflow");
                self.p('=');
                refs.push(self.lab_use());
            }
            4 => {
                branching = true;
                self.id("switch");
                self.operands();
                self.p(',');
                self.id("default");
                self.p('=');
                refs.push(self.lab_use());
                self.p(',');
                let mut n = 0;
                let (max, avg) = self.many(5, 2);
                while n == 0 || self.s.more(n, max, avg) {
                    if n > 0 {
                        self.p(',');
                    }
                    self.ty();
                    self.operand();
                    self.id("label");
                    self.p('=');
                    refs.push(self.lab_use());
                    n += 1;
                }
            }
            5 => {
                self.id("phi");
                let mut n = 0;
                let (max, avg) = self.many(4, 2);
                while n == 0 || self.s.more(n, max, avg) {
                    if n > 0 {
                        self.p(',');
                    }
                    self.p('[');
                    refs.push(self.lab_use());
                    self.p(',');
                    self.operands();
                    self.p(']');
                    n += 1;
                }
            }
            _ => {
                flagged = true;
                self.irregular();
                branching = self.m.toks[opcode].s != "phi";
            }
        }
        let dbg = if self.s.chance(1, 3) { Some(self.dbg_use()) } else { None };
        let last = self.m.toks.len() - 1;
        Instr { first, opcode, last, target, refs, dbg, branching, flagged }
    }
    /// Branch-like instructions from which no targets can be extracted
    fn irregular(&mut self) {
        let k = self.s.idx(25);
        let op = match k {
            0..=5 | 19 | 20 => "br",
            6..=9 | 21 => *self.s.pick(OVERBR),
            10..=13 | 22 | 23 => "switch",
            _ => "phi",
        };
        self.id(op);
        match k {
            0 | 6 | 10 | 14 => {}
            1 => {
                self.t(TK::Type, "int1", R::Plain);
                self.loc_use();
            }
            2 => {
                self.t(TK::Type, "int1", R::Plain);
                self.loc_use();
                self.p(',');
                self.id("bb_1");
            }
            3 => {
                self.t(TK::Type, "int1", R::Plain);
                self.loc_use();
                self.p(',');
                self.id("bb_1");
                self.p(',');
                self.id("bb_2");
                self.p(',');
                self.id("bb_3");
            }
            4 => {
                self.id("bb_1");
                self.p(',');
                self.id("bb_2");
            }
            5 => {
                self.num();
            }
            7 => {
                self.ty();
                self.loc_use();
                self.p(',');
                self.id("cont");
                self.p('=');
                self.id("bb_1");
            }
            8 => {
                self.ty();
                self.loc_use();
                self.p(',');
                self.id("overflow");
                self.p('=');
                self.id("bb_1");
                self.p(',');
                self.id("cont");
                self.p('=');
                self.id("bb_2");
            }
            9 => {
                self.id("bb_1");
            }
            11 => {
                self.ty();
                self.loc_use();
            }
            12 => {
                self.ty();
                self.loc_use();
                self.p(',');
                self.id("default");
                self.p('=');
                self.id("bb_1");
                self.p(',');
                self.ty();
                self.num();
                self.id("label");
                self.id("bb_2");
            }
            13 => {
                self.ty();
                self.loc_use();
                self.p(',');
                self.ty();
                self.num();
                self.id("label");
                self.p('=');
                self.id("bb_2");
            }
            15 => {
                self.num();
                self.p(',');
                self.num();
            }
            16 => {
                self.p('[');
                self.id("bb_1");
                self.p(']');
            }
            17 => {
                self.ty();
                self.p('[');
                self.id("bb_1");
                self.p(',');
                self.num();
                self.p(']');
            }
            // unfinished at the end of the line
            19 => {
                self.t(TK::Type, "int1", R::Plain);
            }
            20 => {
                self.t(TK::Type, "int1", R::Plain);
                self.loc_use();
                self.p(',');
            }
            21 => {
                self.ty();
                self.loc_use();
                self.p(',');
            }
            22 => {
                self.ty();
                self.loc_use();
                self.p(',');
            }
            23 => {
                self.ty();
                self.loc_use();
                self.p(',');
                self.id("default");
                self.p('=');
                self.id("bb_1");
                self.p(',');
                self.ty();
            }
            24 => {
                self.p('[');
                self.id("bb_1");
                self.p(',');
                self.num();
                self.p(']');
                self.p(',');
            }
            _ => {
                self.p('[');
                self.num();
                self.p(',');
                self.id("bb_1");
                self.p(']');
            }
        }
    }
    fn func(&mut self) {
        self.local_defs.clear();
        let start = self.m.toks.len();
        let define = self.t(TK::Define, "define", R::Plain);
        let mut name = self.def_name(NameKind::Func);
        if !self.cfg.dup_funcs {
            let mut i = 0;
            while self.func_defs.contains(&name) {
                i += 1;
                name = if i > 4 { self.fresh(NameKind::Func) } else { self.def_name(NameKind::Func) };
            }
        }
        self.func_defs.insert(name.clone());
        let name = self.signature(R::Def, &name);
        let open = self.p('{');
        self.nl();
        let mut blocks: Vec<Block> = vec![];
        if self.s.chance(1, 4) {
            let mut b = Block { label: None, instrs: vec![] };
            while b.instrs.is_empty() || self.s.more(b.instrs.len(), self.cfg.max_instrs, 1) {
                let i = self.instr();
                b.instrs.push(i);
                self.nl();
            }
            blocks.push(b);
        }
        let mut n = 0;
        let (max, avg) = self.many(self.cfg.max_blocks, 3);
        while self.s.more(n, max, avg) {
            n += 1;
            let b = self.block();
            blocks.push(b);
        }
        let has_label = blocks.iter().any(|b| b.label.is_some());
        let uses_label = blocks.iter().any(|b| b.instrs.iter().any(|i| !i.refs.is_empty()));
        if !self.cfg.messy && uses_label && !has_label {
            let b = self.block();
            blocks.push(b);
        }
        let close = self.p('}');
        self.nl();
        // resolve local names
        let end = self.m.toks.len();
        let locals: Vec<String> = (start..end)
            .filter(|i| self.m.toks[*i].k == TK::Local && self.m.toks[*i].r == R::Def)
            .map(|i| self.m.toks[i].s.clone())
            .collect();
        let labels: Vec<String> =
            blocks.iter().filter_map(|b| b.label.map(|l| self.m.toks[l.0].s.clone())).collect();
        for i in start..end {
            let t = &mut self.m.toks[i];
            if t.r != R::Use {
                continue;
            }
            match t.k {
                TK::Local => {
                    if self.cfg.messy {
                        t.s = self.lpool[t.draw as usize % self.lpool.len()].clone();
                    } else if locals.is_empty() {
                        t.k = TK::Num;
                        t.s = "0".into();
                        t.r = R::Plain;
                    } else {
                        t.s = locals[t.draw as usize % locals.len()].clone();
                    }
                }
                TK::Ident => {
                    if self.cfg.messy {
                        t.s = self.bpool[t.draw as usize % self.bpool.len()].clone();
                    } else {
                        t.s = labels[t.draw as usize % labels.len()].clone();
                    }
                }
                _ => {}
            }
        }
        self.m.funcs.push(Func { define, name, open, close, blocks });
        self.m.stmts.push(Stmt { kind: SK::Func, toks: (start, end) });
    }
    fn block(&mut self) -> Block {
        let l = self.def_name(NameKind::Label);
        let l = self.t(TK::Ident, &l, R::Def);
        let c = self.p(':');
        self.nl();
        let mut b = Block { label: Some((l, c)), instrs: vec![] };
        let (max, avg) = self.many(self.cfg.max_instrs, 2);
        while self.s.more(b.instrs.len(), max, avg) {
            let i = self.instr();
            b.instrs.push(i);
            self.nl();
        }
        b
    }
    fn simple(&mut self, kind: SK) {
        let start = self.m.toks.len();
        match kind {
            SK::Global => {
                let n = self.def_name(NameKind::Gvar);
                self.t(TK::Global, &n, R::Def);
                self.p('=');
                self.soup(8, true, false);
            }
            SK::Decl => {
                self.t(TK::Declare, "declare", R::Plain);
                let n = self.def_name(NameKind::Func);
                self.signature(R::Decl, &n);
                if self.s.chance(1, 3) {
                    self.p('=');
                    let h = *self.s.pick(&["0x123", "0xABC", "0x0"]);
                    self.t(TK::Hex, h, R::Plain);
                }
                if self.s.chance(1, 3) {
                    self.dbg_use();
                }
            }
            SK::Deps => {
                self.gl_use();
                self.id("depends");
                self.id("on");
                let mut n = 0;
                let (max, avg) = self.many(4, 1);
                while n == 0 || self.s.more(n, max, avg) {
                    if n > 0 {
                        self.p(',');
                    }
                    self.gl_use();
                    n += 1;
                }
            }
            SK::Dbg => {
                let n = self.def_name(NameKind::Dbg);
                self.t(TK::Dbg, &n, R::Def);
                self.p('=');
                if self.s.chance(1, 2) {
                    self.p('{');
                    let t = self.str_text();
                    self.t(TK::Str, &t, R::Plain);
                    self.p(':');
                    self.num();
                    self.p('}');
                } else {
                    self.soup(6, true, false);
                }
            }
            _ => unreachable!(),
        }
        self.nl();
        let end = self.m.toks.len();
        // locals outside of function definitions are no symbols
        for i in start..end {
            let t = &mut self.m.toks[i];
            if t.k == TK::Local && t.r == R::Use {
                t.r = R::Plain;
                t.s = self.lpool[t.draw as usize % self.lpool.len()].clone();
            }
        }
        self.m.stmts.push(Stmt { kind, toks: (start, end) });
    }
    fn bad_tok(&mut self, first: bool, open: bool) {
        match self.s.weighted(&[4, 2, 2, 2, 2, 1]) {
            0 => {
                let t = *self.s.pick(&["broken", "line", "foo", "depends", "on", "x::y", "ret"]);
                self.id(t);
            }
            1 => {
                self.num();
            }
            2 => {
                self.ty();
            }
            3 => {
                let l = self.lpool[self.s.idx(self.lpool.len())].clone();
                self.t(TK::Local, &l, R::Plain);
            }
            4 => {
                let cs: &[char] = if first && open { &[',', '(', ')', '[', '=', '*'] } else { &[',', '(', ')', '}', '{', '[', ';', '*'] };
                let c = *self.s.pick(cs);
                self.p(c);
            }
            _ => {
                self.t(TK::Str, "\"str\"", R::Plain);
            }
        }
    }
    /// A malformed statement. It never defines a name of the well-formed part.
    fn bad(&mut self, after_open: bool) {
        self.in_bad = true;
        self.bad_no += 1;
        let start = self.m.toks.len();
        let g = format!("@bad_{}", self.bad_no);
        let d = format!("!bad_{}", self.bad_no);
        let mut kind = SK::Bad;
        // directly after an unterminated function only lines which cannot continue its body are used
        let k = if after_open { 1 + self.s.idx(4) } else { self.s.weighted(&[1, 1, 1, 1, 1, 1, 1, 1, 3, 2, 2]) };
        match k {
            8..=10 => kind = self.bad_mutated(k, &g, &d),
            0 | 5 => {
                let mut n = 0;
                while n == 0 || self.s.more(n, 6, 2) {
                    self.bad_tok(n == 0, after_open);
                    n += 1;
                }
            }
            1 => {
                self.t(TK::Declare, "declare", R::Plain);
                let v = self.s.idx(9);
                if v != 0 && v != 2 {
                    self.ty();
                }
                if v >= 2 {
                    self.t(TK::Global, &g, R::Plain);
                }
                match v {
                    2 => {
                        self.p('(');
                        self.p(')');
                    }
                    4 => {
                        self.p('(');
                    }
                    5 => {
                        self.p('(');
                        self.ty();
                        self.p(')');
                    }
                    6 => {
                        self.p('(');
                        self.ty();
                        self.t(TK::Local, "%a", R::Plain);
                    }
                    7 => {
                        self.p('(');
                        self.p(')');
                        self.p('=');
                        if self.s.chance(1, 2) {
                            self.num();
                        }
                    }
                    8 => {
                        self.p('(');
                        self.p(')');
                        self.t(TK::Dbg, &d, R::Plain);
                        self.id("x");
                    }
                    _ => {}
                }
            }
            2 => {
                self.t(TK::Global, &g, R::Plain);
                match self.s.idx(4) {
                    0 => {}
                    1 => {
                        self.num();
                    }
                    2 => {
                        self.id("depends");
                    }
                    _ => {
                        self.id("depends");
                        self.num();
                    }
                }
            }
            3 => {
                if self.s.chance(1, 3) {
                    self.p('=');
                    self.num();
                } else {
                    self.t(TK::Dbg, &d, R::Plain);
                    if self.s.chance(1, 2) {
                        self.id("x");
                    }
                }
            }
            4 => {
                self.t(TK::Define, "define", R::Plain);
                let v = self.s.idx(5);
                if v >= 1 {
                    self.ty();
                }
                if v >= 2 {
                    self.t(TK::Global, &g, R::Plain);
                }
                if v >= 3 {
                    self.p('(');
                    self.p(')');
                }
                if v >= 4 {
                    self.p('{');
                    self.nl();
                    kind = SK::BadOpen;
                    let mut n = 0;
                    while self.s.more(n, 3, 1) {
                        if n > 0 {
                            self.nl();
                        }
                        self.plain_instr();
                        n += 1;
                    }
                }
            }
            _ => {
                // a function with a garbled body
                self.t(TK::Define, "define", R::Plain);
                self.ty();
                self.t(TK::Global, &g, R::Plain);
                self.p('(');
                if self.s.chance(1, 2) {
                    self.ty();
                    self.t(TK::Local, "%a", R::Plain);
                }
                self.p(')');
                self.p('{');
                self.nl();
                let mut n = 0;
                while self.s.more(n, 3, 1) {
                    self.plain_instr();
                    self.nl();
                    n += 1;
                }
                match self.s.idx(5) {
                    0 => {
                        self.num();
                    }
                    1 => {
                        self.ty();
                    }
                    2 => {
                        self.t(TK::Str, "\"str\"", R::Plain);
                    }
                    3 => {
                        self.p('[');
                    }
                    _ => {
                        self.t(TK::Local, "%a", R::Plain);
                    }
                }
                let mut n = 0;
                while self.s.more(n, 3, 1) {
                    self.num();
                    n += 1;
                }
                self.nl();
                let mut n = 0;
                while self.s.more(n, 3, 1) {
                    self.plain_instr();
                    self.nl();
                    n += 1;
                }
                self.p('}');
            }
        }
        if self.m.items.last() != Some(&It::Nl) {
            self.nl();
        }
        self.in_bad = false;
        let end = self.m.toks.len();
        self.m.stmts.push(Stmt { kind, toks: (start, end) });
    }
    /// Tokens of a well-formed statement without its line end. `None` is a line end.
    fn raw_stmt(&mut self, kind: usize, g: &str, d: &str) -> Vec<Raw> {
        let mut v: Vec<Raw> = vec![];
        let p = |c: &str| Some((TK::Punct, c.to_string()));
        let ty = |b: &mut Self| Some((TK::Type, b.s.pick(TYPES).to_string()));
        let sig = |b: &mut Self, v: &mut Vec<Raw>| {
            while b.s.chance(1, 4) {
                v.push(Some((TK::Mod, b.s.pick(MODS).to_string())));
            }
            v.push(ty(b));
            v.push(Some((TK::Global, g.to_string())));
            v.push(p("("));
            let mut n = 0;
            while b.s.more(n, 3, 1) {
                if n > 0 {
                    v.push(p(","));
                }
                v.push(ty(b));
                v.push(Some((TK::Local, b.s.pick(&["%a", "%b"]).to_string())));
                n += 1;
            }
            v.push(p(")"));
        };
        match kind {
            0 => {
                v.push(Some((TK::Declare, "declare".into())));
                sig(self, &mut v);
                if self.s.chance(1, 3) {
                    v.push(p("="));
                    v.push(Some((TK::Hex, "0x123".into())));
                }
                if self.s.chance(1, 3) {
                    v.push(Some((TK::Dbg, d.to_string())));
                }
            }
            1 => {
                v.push(Some((TK::Define, "define".into())));
                sig(self, &mut v);
                v.push(p("{"));
                v.push(None);
                let mut n = 0;
                while self.s.more(n, 4, 2) {
                    n += 1;
                    match self.s.idx(4) {
                        0 => {
                            v.push(Some((TK::Ident, "lbl".into())));
                            v.push(p(":"));
                        }
                        1 => {
                            v.push(ty(self));
                            v.push(Some((TK::Local, "%a".into())));
                            v.push(p("="));
                            v.push(Some((TK::Ident, "add".into())));
                            v.push(ty(self));
                            v.push(Some((TK::Local, "%b".into())));
                        }
                        2 => {
                            v.push(Some((TK::Ident, "br".into())));
                            v.push(Some((TK::Ident, "lbl".into())));
                        }
                        _ => {
                            v.push(Some((TK::Ident, "ret".into())));
                            if self.s.chance(1, 2) {
                                v.push(Some((TK::Dbg, d.to_string())));
                            }
                        }
                    }
                    v.push(None);
                }
                v.push(p("}"));
            }
            2 => {
                v.push(Some((TK::Global, g.to_string())));
                v.push(p("="));
                v.push(Some((TK::Num, "1".into())));
            }
            3 => {
                v.push(Some((TK::Dbg, d.to_string())));
                v.push(p("="));
                v.push(Some((TK::Num, "1".into())));
            }
            _ => {
                v.push(Some((TK::Global, g.to_string())));
                v.push(Some((TK::Ident, "depends".into())));
                v.push(Some((TK::Ident, "on".into())));
                v.push(Some((TK::Global, g.to_string())));
                while self.s.chance(1, 3) {
                    v.push(p(","));
                    v.push(Some((TK::Global, g.to_string())));
                }
            }
        }
        v
    }
    fn raw_tok(&mut self, g: &str, d: &str) -> Raw {
        Some(match self.s.weighted(&[2, 2, 2, 2, 4, 1, 1, 1, 1, 1, 1, 1]) {
            0 => (TK::Ident, self.s.pick(&["x", "lbl", "depends", "on", "br"]).to_string()),
            1 => (TK::Num, "7".into()),
            2 => (TK::Type, self.s.pick(TYPES).to_string()),
            3 => (TK::Local, "%a".into()),
            4 => (TK::Punct, self.s.pick(PUNCT).to_string()),
            5 => (TK::Global, g.to_string()),
            6 => (TK::Dbg, d.to_string()),
            7 => (TK::Declare, "declare".into()),
            8 => (TK::Define, "define".into()),
            9 => (TK::Mod, self.s.pick(MODS).to_string()),
            10 => (TK::Hex, "0x1".into()),
            _ => (TK::Str, "\"str\"".into()),
        })
    }
    /// A statement close to a well-formed one: one or two changes of tokens or line ends.
    fn bad_mutated(&mut self, k: usize, g: &str, d: &str) -> SK {
        let mut v = match k {
            8 => {
                let kind = *self.s.pick(&[0, 0, 0, 2, 3, 4]);
                self.raw_stmt(kind, g, d)
            }
            9 => self.raw_stmt(1, g, d),
            _ => {
                // two statements on one line
                let first = *self.s.pick(&[0, 1]);
                let mut v = self.raw_stmt(first, g, d);
                let second = self.s.idx(5);
                v.extend(self.raw_stmt(second, g, d));
                v
            }
        };
        if k != 10 {
            let mut n = 0;
            while n == 0 || self.s.more(n, 2, 1) {
                n += 1;
                let i = self.s.idx(v.len());
                match self.s.weighted(&[4, 2, 3, 2, 2, 4, 1, 4, 2]) {
                    0 => {
                        v.remove(i);
                    }
                    5 => {
                        // punctuation next to punctuation
                        let at: Vec<usize> = (0..v.len()).filter(|i| matches!(&v[*i], Some((TK::Punct, _)))).collect();
                        if !at.is_empty() {
                            let j = at[self.s.idx(at.len())] + self.s.idx(2);
                            let p = *self.s.pick(&[",", ",", "(", ")", "=", ":", "{", "}"]);
                            v.insert(j, Some((TK::Punct, p.to_string())));
                        }
                    }
                    6 => {
                        let j = self.s.idx(v.len());
                        let t = v[j].clone();
                        v.insert(i, t);
                    }
                    7 => {
                        // a line end less, preferably one which follows punctuation
                        let all: Vec<usize> = (0..v.len()).filter(|i| v[*i].is_none()).collect();
                        let hard: Vec<usize> =
                            all.iter().copied().filter(|i| *i > 0 && matches!(&v[*i - 1], Some((TK::Punct, _)))).collect();
                        let at = if hard.is_empty() { &all } else { &hard };
                        if !at.is_empty() {
                            let j = at[self.s.idx(at.len())];
                            v.remove(j);
                        }
                    }
                    8 => v.insert(i, None),
                    1 => {
                        let t = v[i].clone();
                        v.insert(i, t);
                    }
                    2 => {
                        let t = self.raw_tok(g, d);
                        v.insert(i, t);
                    }
                    3 => {
                        let j = (i + 1) % v.len();
                        v.swap(i, j);
                    }
                    _ => {
                        v[i] = self.raw_tok(g, d);
                    }
                }
                if v.is_empty() {
                    break;
                }
            }
        }
        while v.first() == Some(&None) {
            v.remove(0);
        }
        v.push(None);
        let kind = match verdict(&v) {
            Verdict::Bad => SK::Bad,
            Verdict::Open => SK::BadOpen,
            Verdict::Valid | Verdict::Unknown => {
                v = vec![Some((TK::Global, g.to_string())), None];
                SK::Bad
            }
        };
        for t in v {
            match t {
                Some((k, s)) => {
                    self.t(k, &s, R::Plain);
                }
                None => self.nl(),
            }
        }
        kind
    }
    fn plain_instr(&mut self) {
        match self.s.idx(3) {
            0 => {
                self.id("ret");
            }
            1 => {
                self.id("store");
                self.ty();
                self.t(TK::Local, "%a", R::Plain);
            }
            _ => {
                self.id("lbl");
                self.p(':');
            }
        }
    }
}

type Raw = Option<(TK, String)>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Verdict {
    Valid,
    Bad,
    /// ends within a function body
    Open,
    /// not judged
    Unknown,
}

struct Rec<'a> {
    v: &'a [Raw],
    i: usize,
}
impl Rec<'_> {
    fn is(&self, k: TK) -> bool {
        matches!(self.v.get(self.i), Some(Some(t)) if t.0 == k)
    }
    fn text(&self, k: TK, s: &str) -> bool {
        matches!(self.v.get(self.i), Some(Some(t)) if t.0 == k && t.1 == s)
    }
    fn want(&mut self, k: TK) -> Result<(), Verdict> {
        if !self.is(k) {
            return Err(Verdict::Bad);
        }
        self.i += 1;
        Ok(())
    }
    fn punct(&mut self, c: &str) -> Result<(), Verdict> {
        if !self.text(TK::Punct, c) {
            return Err(Verdict::Bad);
        }
        self.i += 1;
        Ok(())
    }
    fn at_nl(&self) -> bool {
        self.v.get(self.i) == Some(&None)
    }
    fn nl(&mut self) -> Result<(), Verdict> {
        if !self.at_nl() {
            return Err(Verdict::Bad);
        }
        self.i += 1;
        Ok(())
    }
    fn rest_of_line(&mut self) {
        while !self.at_nl() {
            self.i += 1;
        }
        self.i += 1;
    }
    fn sig(&mut self) -> Result<(), Verdict> {
        while self.is(TK::Mod) {
            self.i += 1;
        }
        self.want(TK::Type)?;
        self.want(TK::Global)?;
        self.punct("(")?;
        if !self.text(TK::Punct, ")") {
            loop {
                self.want(TK::Type)?;
                self.want(TK::Local)?;
                if !self.text(TK::Punct, ",") {
                    break;
                }
                self.i += 1;
            }
        }
        self.punct(")")
    }
    fn body(&mut self) -> Result<(), Verdict> {
        self.punct("{")?;
        self.nl()?;
        loop {
            while self.at_nl() {
                self.i += 1;
            }
            if self.i >= self.v.len() {
                return Err(Verdict::Open);
            }
            if self.text(TK::Punct, "}") {
                self.i += 1;
                return Ok(());
            }
            let target = self.is(TK::Type);
            if target {
                self.i += 1;
                self.want(TK::Local)?;
                self.punct("=")?;
            }
            self.want(TK::Ident)?;
            if self.text(TK::Punct, ":") {
                if target {
                    return Err(Verdict::Bad);
                }
                self.i += 1;
                self.nl()?;
                continue;
            }
            while !self.at_nl() {
                if self.is(TK::Dbg) && self.v[self.i + 1].is_some() {
                    return Err(Verdict::Unknown);
                }
                self.i += 1;
            }
        }
    }
    fn stmt(&mut self) -> Result<(), Verdict> {
        if self.is(TK::Global) {
            self.i += 1;
            if self.text(TK::Punct, "=") {
                self.rest_of_line();
                return Ok(());
            }
            if !self.text(TK::Ident, "depends") {
                return Err(Verdict::Bad);
            }
            self.i += 1;
            if !self.text(TK::Ident, "on") {
                return Err(Verdict::Bad);
            }
            self.i += 1;
            if !self.is(TK::Global) {
                return Err(Verdict::Unknown);
            }
            loop {
                self.want(TK::Global)?;
                if !self.text(TK::Punct, ",") {
                    break;
                }
                self.i += 1;
            }
            if self.at_nl() {
                return Ok(());
            }
            if self.is(TK::Global) || self.is(TK::Dbg) || self.is(TK::Declare) || self.is(TK::Define) {
                return Err(Verdict::Unknown);
            }
            return Err(Verdict::Bad);
        }
        if self.is(TK::Dbg) {
            self.i += 1;
            self.punct("=")?;
            self.rest_of_line();
            return Ok(());
        }
        if self.is(TK::Declare) {
            self.i += 1;
            self.sig()?;
            if self.text(TK::Punct, "=") {
                self.i += 1;
                self.want(TK::Hex)?;
            }
            if self.is(TK::Dbg) {
                self.i += 1;
            }
            return self.nl();
        }
        self.want(TK::Define)?;
        self.sig()?;
        self.body()?;
        self.nl()
    }
}

/// Reference recogniser for a sequence of statements, which ends with a line end.
pub fn verdict(v: &[Raw]) -> Verdict {
    let mut r = Rec { v, i: 0 };
    loop {
        while r.at_nl() {
            r.i += 1;
        }
        if r.i >= v.len() {
            return Verdict::Valid;
        }
        if let Err(e) = r.stmt() {
            return e;
        }
    }
}

pub fn module(s: &mut Src, cfg: &Cfg) -> Module {
    let mut b = B {
        s,
        cfg,
        m: Module::default(),
        fpool: vec![],
        gpool: vec![],
        dpool: vec![],
        lpool: vec![],
        bpool: vec![],
        taken: BTreeSet::new(),
        made: vec![],
        bad_no: 0,
        in_bad: false,
        func_defs: BTreeSet::new(),
        local_defs: vec![],
    };
    // `@` names of functions and variables share one name space and are kept apart
    if cfg.messy {
        let n = 2 + b.s.idx(3);
        b.fpool = b.pool(NameKind::Func, n);
        let n = 2 + b.s.idx(3);
        b.gpool = b.pool(NameKind::Gvar, n);
        let n = 2 + b.s.idx(4);
        b.dpool = b.pool(NameKind::Dbg, n);
    }
    let n = 2 + b.s.idx(4);
    b.lpool = b.pool(NameKind::Local, n);
    let n = 2 + b.s.idx(4);
    b.bpool = b.pool(NameKind::Label, n);
    let mut n = 0;
    let mut prev = SK::Global;
    let (max, avg) = if cfg.large && b.s.chance(1, 250) { (220, 150) } else { (cfg.max_stmts, cfg.avg_stmts) };
    while b.s.more(n, max, avg) {
        n += 1;
        match b.s.weighted(&cfg.w) {
            0 => b.simple(SK::Global),
            1 => b.simple(SK::Decl),
            2 => b.func(),
            3 => b.simple(SK::Deps),
            4 => b.simple(SK::Dbg),
            _ => b.bad(prev == SK::BadOpen),
        }
        prev = b.m.stmts.last().unwrap().kind;
    }
    // resolve module-level names
    let fdefs: Vec<String> = name_list(&b.m, TK::Global);
    let ddefs: Vec<String> = name_list(&b.m, TK::Dbg);
    let need_g = b.m.toks.iter().any(|t| t.k == TK::Global && t.r == R::Use);
    let need_d = b.m.toks.iter().any(|t| t.k == TK::Dbg && t.r == R::Use);
    let (mut fdefs, mut ddefs) = (fdefs, ddefs);
    if cfg.messy {
        fdefs = b.fpool.iter().chain(b.gpool.iter()).cloned().collect();
        ddefs = b.dpool.clone();
    } else {
        if need_g && fdefs.is_empty() {
            let n = b.fresh(NameKind::Gvar);
            let st = b.m.toks.len();
            b.t(TK::Global, &n, R::Def);
            b.p('=');
            b.num();
            b.nl();
            let end = b.m.toks.len();
            b.m.stmts.push(Stmt { kind: SK::Global, toks: (st, end) });
            fdefs.push(n);
        }
        if need_d {
            // some references get an annotation of their own
            let mut extra = 0;
            while ddefs.is_empty() || b.s.more(extra, 3, 1) {
                extra += 1;
                let n = b.fresh(NameKind::Dbg);
                let st = b.m.toks.len();
                b.t(TK::Dbg, &n, R::Def);
                b.p('=');
                b.p('{');
                b.p('}');
                b.nl();
                let end = b.m.toks.len();
                b.m.stmts.push(Stmt { kind: SK::Dbg, toks: (st, end) });
                ddefs.push(n);
            }
        }
    }
    for t in &mut b.m.toks {
        if t.r == R::Use && t.k == TK::Global {
            t.s = fdefs[t.draw as usize % fdefs.len()].clone();
        }
        if t.r == R::Use && t.k == TK::Dbg {
            t.s = ddefs[t.draw as usize % ddefs.len()].clone();
        }
    }
    b.m
}

fn name_list(m: &Module, k: TK) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for t in &m.toks {
        if t.k == k && (t.r == R::Def || t.r == R::Decl) && !v.contains(&t.s) {
            v.push(t.s.clone());
        }
    }
    v
}

/// A sequence of valid tokens without any structure.
pub fn token_soup(s: &mut Src, cfg: &Cfg, max: usize) -> Module {
    let mut b = B {
        s,
        cfg,
        m: Module::default(),
        fpool: vec![],
        gpool: vec![],
        dpool: vec![],
        lpool: vec![],
        bpool: vec![],
        taken: BTreeSet::new(),
        made: vec![],
        bad_no: 0,
        in_bad: false,
        func_defs: BTreeSet::new(),
        local_defs: vec![],
    };
    b.fpool = b.pool(NameKind::Func, 2);
    b.gpool = b.pool(NameKind::Gvar, 2);
    b.dpool = b.pool(NameKind::Dbg, 2);
    b.lpool = b.pool(NameKind::Local, 3);
    b.bpool = b.pool(NameKind::Label, 2);
    let mut n = 0;
    while b.s.more(n, max, 20) {
        n += 1;
        if b.s.chance(1, 6) {
            b.nl();
        } else {
            b.soup_tok(true, false);
        }
    }
    b.nl();
    for t in &mut b.m.toks {
        let p = match t.k {
            TK::Global if t.draw % 2 == 0 => &b.fpool,
            TK::Global => &b.gpool,
            TK::Dbg => &b.dpool,
            TK::Local => &b.lpool,
            _ => continue,
        };
        t.s = p[(t.draw / 2) as usize % p.len()].clone();
    }
    b.m
}

#[derive(Clone, Debug)]
pub struct LCfg {
    pub unicode: bool,
    /// 0: LF, 1: CRLF, 2: mixed
    pub eol: u64,
    pub comments: bool,
    pub blanks: bool,
    pub illegal: bool,
    /// never drop the last line end
    pub keep_last: bool,
    /// size of a huge gap somewhere: columns or lines
    pub gap: usize,
}
impl LCfg {
    pub fn random(s: &mut Src, unicode: bool) -> Self {
        LCfg {
            unicode,
            eol: s.weighted(&[4, 2, 1]) as u64,
            comments: s.chance(2, 3),
            blanks: s.chance(1, 2),
            illegal: false,
            keep_last: false,
            gap: if s.chance(1, 50) { [300, 1100, 5000, 66000][s.weighted(&[4, 3, 2, 1])] } else { 0 },
        }
    }
}

pub struct Doc {
    pub text: String,
    pub map: TextMap,
    /// char span per token
    pub span: Vec<(usize, usize)>,
    pub comments: Vec<(usize, usize)>,
    pub illegal: Vec<(usize, usize)>,
}

impl Doc {
    pub fn range(&self, tok: usize) -> serde_json::Value {
        self.map.range(self.span[tok])
    }
    pub fn pos(&self, tok: usize) -> (u64, u64) {
        self.map.pos(self.span[tok].0)
    }
    pub fn line(&self, tok: usize) -> u64 {
        self.map.line_of(self.span[tok].0)
    }
    /// A position inside the token, chosen by `s`.
    pub fn inside(&self, s: &mut Src, tok: usize) -> (u64, u64) {
        let (a, b) = self.span[tok];
        let n = b - a;
        let o = match s.weighted(&[2, 2, 3]) {
            0 => 0,
            1 => n - 1,
            _ => s.idx(n),
        };
        self.map.pos(a + o)
    }
}

struct Out {
    text: String,
    n: usize,
}
impl Out {
    fn push(&mut self, t: &str) {
        self.text.push_str(t);
        self.n += t.chars().count();
    }
}

fn blank(s: &mut Src, o: &mut Out, need: bool) {
    let k = s.weighted(&[6, 2, 1, 1, 1]);
    let t = match (k, need) {
        (0, true) => " ",
        (0, false) => "",
        (1, _) => " ",
        (2, _) => "\t",
        (3, _) => "  ",
        _ => " \t ",
    };
    o.push(t);
}

pub fn layout(s: &mut Src, m: &Module, cfg: &LCfg) -> Doc {
    let mut o = Out { text: String::new(), n: 0 };
    let mut span = vec![(0, 0); m.toks.len()];
    let mut comments = vec![];
    let mut illegal = vec![];
    let nl = |s: &mut Src, o: &mut Out| {
        let crlf = match cfg.eol {
            0 => false,
            1 => true,
            _ => s.chance(1, 2),
        };
        o.push(if crlf { "\r\n" } else { "\n" });
    };
    let comment = |s: &mut Src, o: &mut Out, comments: &mut Vec<(usize, usize)>| {
        let any;
        let t = if cfg.unicode && s.chance(1, 2) {
            *s.pick(COMMENTS_U)
        } else if s.chance(1, 10) {
            any = random_chars(s);
            &any[..]
        } else {
            *s.pick(COMMENTS)
        };
        let a = o.n;
        o.push("#");
        o.push(t);
        comments.push((a, o.n));
    };
    let bad = |s: &mut Src, o: &mut Out, illegal: &mut Vec<(usize, usize)>| {
        let t = if cfg.unicode && s.chance(1, 2) { *s.pick(ILLEGAL_U) } else { *s.pick(ILLEGAL) };
        let a = o.n;
        o.push(t);
        illegal.push((a, o.n));
    };
    // lines before the first statement
    let filler = |s: &mut Src, o: &mut Out, comments: &mut Vec<(usize, usize)>, illegal: &mut Vec<(usize, usize)>| {
        let mut n = 0;
        while cfg.blanks && s.more(n, 3, 1) && s.chance(1, 2) {
            n += 1;
            blank(s, o, false);
            if cfg.illegal && s.chance(1, 6) {
                bad(s, o, illegal);
                blank(s, o, false);
            }
            if cfg.comments && s.chance(1, 2) {
                comment(s, o, comments);
            }
            nl(s, o);
        }
    };
    filler(s, &mut o, &mut comments, &mut illegal);
    let mut prev: Option<usize> = None; // previous token on this line
    let n_items = m.items.len();
    let gap = if cfg.gap > 0 && n_items > 0 { Some(s.idx(n_items)) } else { None };
    for (ix, it) in m.items.iter().enumerate() {
        match it {
            It::T(t) => {
                let tok = &m.toks[*t];
                let need = match prev {
                    None => false,
                    Some(p) => {
                        let p = &m.toks[p];
                        let wordy = matches!(
                            p.k,
                            TK::Num | TK::Hex | TK::Local | TK::Global | TK::Dbg | TK::Type | TK::Ident | TK::Mod | TK::Declare | TK::Define
                        ) || p.s == ":";
                        wordy && is_word(tok.s.chars().next().unwrap())
                    }
                };
                // keep the usual look most of the time
                let nice = match prev {
                    None => false,
                    Some(p) => {
                        let p = &m.toks[p];
                        !(matches!(&tok.s[..], "," | "(" | ")" | ":" | "]") || matches!(&p.s[..], "(" | "["))
                    }
                };
                let nice = nice && s.chance(3, 4);
                blank(s, &mut o, need || nice);
                if gap == Some(ix) {
                    o.push(&" ".repeat(cfg.gap));
                }
                if cfg.illegal && s.chance(1, 12) {
                    bad(s, &mut o, &mut illegal);
                    blank(s, &mut o, false);
                }
                let a = o.n;
                o.push(&tok.s);
                span[*t] = (a, o.n);
                prev = Some(*t);
            }
            It::Nl => {
                if s.chance(1, 10) {
                    blank(s, &mut o, true);
                }
                if cfg.illegal && s.chance(1, 12) {
                    bad(s, &mut o, &mut illegal);
                    blank(s, &mut o, false);
                }
                if cfg.comments && s.chance(1, 5) {
                    blank(s, &mut o, false);
                    comment(s, &mut o, &mut comments);
                }
                if ix + 1 == n_items && !cfg.keep_last && s.chance(1, 2) {
                    continue;
                }
                nl(s, &mut o);
                if gap == Some(ix) {
                    let crlf = cfg.eol == 1;
                    o.push(&(if crlf { "\r\n" } else { "\n" }).repeat(cfg.gap));
                }
                filler(s, &mut o, &mut comments, &mut illegal);
                prev = None;
            }
        }
    }
    let map = TextMap::new(&o.text);
    Doc { text: o.text, map, span, comments, illegal }
}

// ---------------------------------------------------------------------------------------------
// Model

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Kind {
    Gvar,
    Func,
    Dbg,
    Label,
    Local,
}
#[derive(Clone, Debug)]
pub struct Occ {
    pub tok: usize,
    pub kind: Kind,
    pub ud: R,
    pub scope: Option<usize>,
}
pub type Key = (Kind, Option<usize>, String);
#[derive(Clone, Debug, Default)]
pub struct Group {
    pub decls: Vec<usize>,
    pub defs: Vec<usize>,
    pub uses: Vec<usize>,
}
impl Group {
    pub fn all(&self) -> Vec<usize> {
        let mut v = self.decls.clone();
        v.extend(&self.defs);
        v.extend(&self.uses);
        v.sort();
        v
    }
}
pub struct Model {
    pub occs: Vec<Occ>,
    pub groups: BTreeMap<Key, Group>,
    pub by_tok: BTreeMap<usize, usize>,
}

impl Model {
    pub fn new(m: &Module) -> Self {
        let funcs: BTreeSet<&str> = m
            .toks
            .iter()
            .enumerate()
            .filter(|(i, t)| {
                t.k == TK::Global
                    && (t.r == R::Decl || (t.r == R::Def && m.funcs.iter().any(|f| f.name == *i)))
            })
            .map(|(_, t)| &t.s[..])
            .collect();
        let mut occs = vec![];
        for (i, t) in m.toks.iter().enumerate() {
            if t.bad {
                continue;
            }
            let scope = m.funcs.iter().position(|f| f.define <= i && i <= f.close);
            let (kind, scope) = match t.k {
                TK::Global if funcs.contains(&t.s[..]) => (Kind::Func, None),
                TK::Global => (Kind::Gvar, None),
                TK::Dbg => (Kind::Dbg, None),
                TK::Local if scope.is_some() => (Kind::Local, scope),
                TK::Ident if t.r != R::Plain => (Kind::Label, scope),
                _ => continue,
            };
            let ud = if t.r == R::Plain { R::Use } else { t.r };
            occs.push(Occ { tok: i, kind, ud, scope });
        }
        let mut groups: BTreeMap<Key, Group> = BTreeMap::new();
        let mut by_tok = BTreeMap::new();
        for (i, o) in occs.iter().enumerate() {
            by_tok.insert(o.tok, i);
            let g = groups.entry((o.kind, o.scope, m.toks[o.tok].s.clone())).or_default();
            match o.ud {
                R::Decl => g.decls.push(o.tok),
                R::Def => g.defs.push(o.tok),
                _ => g.uses.push(o.tok),
            }
        }
        Model { occs, groups, by_tok }
    }
    pub fn key(&self, m: &Module, o: &Occ) -> Key {
        (o.kind, o.scope, m.toks[o.tok].s.clone())
    }
    pub fn group(&self, m: &Module, o: &Occ) -> &Group {
        &self.groups[&self.key(m, o)]
    }
}

/// Trailing number of a name: (prefix, number)
pub fn split_number(name: &str) -> Option<(String, i128)> {
    let digits: String = name.chars().rev().take_while(|c| c.is_ascii_digit()).collect::<Vec<_>>().into_iter().rev().collect();
    if digits.is_empty() {
        return None;
    }
    let n: i128 = digits.parse().ok()?;
    Some((name[..name.len() - digits.len()].to_string(), n))
}
