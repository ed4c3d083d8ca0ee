//! C01 literal text and whitespace control, C02 block structure, C12 totality of the parser.
use crate::ast::*;
use crate::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::val::V;

// ------------------------------------------------------------------ C01: the model of the text layer
#[derive(Debug, PartialEq)]
pub enum Lexed {
    Text(String),
    /// contains a tag the model has no opinion about
    Unknown,
}
fn ws(c: char) -> bool {
    " \t\n\r".contains(c)
}
struct Lx<'a> {
    s: &'a [char],
    at: usize,
}
impl<'a> Lx<'a> {
    fn skip_ws(&mut self) {
        while self.at < self.s.len() && ws(self.s[self.at]) {
            self.at += 1
        }
    }
    fn looking(&self, t: &str) -> bool {
        let t: Vec<char> = t.chars().collect();
        self.s[self.at..].starts_with(&t)
    }
    /// where the tag content starts if a tag opens here
    fn opens(&self) -> Option<usize> {
        let mut p = Lx { s: self.s, at: self.at };
        p.skip_ws();
        let at = if p.looking("{{-") {
            p.at + 3
        } else if self.looking("{{") {
            self.at + 2
        } else {
            return None;
        };
        let mut p = Lx { s: self.s, at };
        p.skip_ws();
        Some(p.at)
    }
}
/// What a template made of text, comments and integer tags shows
pub fn lex(src: &str) -> Lexed {
    let cs: Vec<char> = src.chars().collect();
    let mut l = Lx { s: &cs, at: 0 };
    let mut out = String::new();
    while l.at < cs.len() {
        if let Some(content) = l.opens() {
            l.at = content;
            if l.looking("#") {
                l.at += 1;
                while l.at < cs.len() && cs[l.at] != '#' {
                    l.at += 1
                }
                if l.at == cs.len() {
                    return Lexed::Unknown;
                }
                l.at += 1;
            } else {
                let st = l.at;
                if l.looking("-") {
                    l.at += 1;
                }
                let d = l.at;
                while l.at < cs.len() && cs[l.at].is_ascii_digit() {
                    l.at += 1
                }
                if l.at == d {
                    return Lexed::Unknown;
                }
                out.extend(&cs[st..l.at]);
            }
            l.skip_ws();
            if l.looking("-}}") {
                l.at += 3;
                l.skip_ws();
            } else if l.looking("}}") {
                l.at += 2;
            } else {
                return Lexed::Unknown;
            }
            continue;
        }
        // one piece of text
        match cs[l.at] {
            '\\' => {
                l.at += 1;
                match cs.get(l.at) {
                    None => out.push('\\'),
                    Some(c) if ws(*c) => {
                        l.skip_ws();
                        if l.looking("\\") {
                            l.at += 1;
                        }
                    }
                    Some(c) => {
                        out.push(*c);
                        l.at += 1;
                    }
                }
            }
            // a run of white space is one piece: a trimming tag can only begin before or after it
            c if ws(c) => {
                while l.at < cs.len() && ws(cs[l.at]) {
                    out.push(cs[l.at]);
                    l.at += 1;
                }
            }
            c => {
                out.push(c);
                l.at += 1;
            }
        }
    }
    Lexed::Text(out)
}

fn check_text(cx: &mut Ctx, src: &str) -> Res {
    match lex(src) {
        Lexed::Unknown => Ok(()),
        Lexed::Text(want) => {
            cx.trace();
            cx.trans(src.chars().count() as u64);
            cx.state(&want);
            cx.sample(|| format!("{:?} shows {:?}", src, want));
            if want != src {
                cx.nontrivial();
            }
            match real_src(src, &[], &cx.fm) {
                Real::Ok((got, ex)) if got == want && ex.is_empty() => Ok(()),
                r => viol(format!("{:?}", src), format!("should show {:?}; templito gives {:?}", want, r)),
            }
        }
    }
}
/// text in which every special character is escaped
pub fn escaped(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if c == '{' || c == '\\' {
            o.push('\\');
        }
        o.push(c);
    }
    o
}

fn texts(name: &str, bounds: &str, toks: &[&str], lo: u32, hi: u32) -> Space {
    let g = of(&toks.iter().map(|s| s.to_string()).collect::<Vec<_>>()).seq(lo, hi);
    Space::new(name, format!("{}: {:?}, {}..={} tokens", bounds, toks, lo, hi), g.n, move |i, cx| check_text(cx, &g.at(i).concat()))
}

pub fn c01(t: Tier) -> Vec<Space> {
    let mut r = vec![
        texts("raw", "every string of tokens", &["a", " ", "\n", "\\", "{", "}", "-", "é", "{{1}}", "{{-1}}", "{{1-}}", "{{#c#}}"], 0, t.pick(5, 6)),
        texts("blank", "white space around trimming tags", &[" ", "\t", "\r", "\n", "x", "\\", "{{-2-}}", "{{- -3 -}}", "{{ 4 }}", "{{-#-#-}}"], 0, t.pick(5, 6)),
        texts("braces", "brackets and backslashes", &["{", "}", "\\", " ", "1", "#", "-", "a"], 0, t.pick(7, 8)),
    ];
    // every character in every context
    let mut chars: Vec<char> = (1u8..128).map(|c| c as char).collect();
    chars.extend("\u{80}\u{a0}ßéλ\u{300}\u{2028}\u{2029}\u{3000}\u{feff}漢\u{ffff}😀\u{10ffff}\u{85}\u{200b}｛｝＼".chars());
    let ctx: Vec<(&str, &str)> = vec![
        ("", ""), ("\\", ""), ("a", "b"), ("a\\", "b"), ("{{1}}", "{{2}}"), ("{{1-}}", "{{-2}}"), ("{{1}}\\", "{{2}}"), ("{{1-}}\\", "{{-2}}"), (" ", " "),
        ("\n", "\n"), ("{{1-}} ", " {{-2}}"), ("\\\n", "\\"), ("\\\\", "\\\\"), ("{", "{{1}}"), ("{ ", " }"), ("{{#", "#}}"), ("x{{-#", "#-}}y"), ("\\ ", "z"), ("é", "é"),
        ("{{1}}{{2-}} ", ""), ("", " {{-1}}"), ("}}", "}}"), ("-}}", "{{-1}}"), ("\\{", "\\}"),
    ];
    let g = of(&chars).x(&of(&ctx)).x(&of(&[1usize, 2, 3]));
    r.push(Space::new("chars", "every ASCII character and 20 others, 1-3 times, in 24 contexts", g.n, move |i, cx| {
        let ((c, (a, b)), n) = g.at(i);
        check_text(cx, &format!("{}{}{}", a, c.to_string().repeat(n), b))
    }));
    // pairs of characters
    let few: Vec<char> = "aZ09_ \n\t\r\\{}-#$@/'\"().,:;=<>?!&|*+~`^%[]éλ😀\u{a0}".chars().collect();
    let g = of(&few).seq(2, t.pick(2, 3)).x(&of(&[("", ""), ("{{1}}", "{{2}}"), ("x", "{{-2}}")]));
    r.push(Space::new("char-pairs", "every pair (thorough: triple) of 43 characters in 3 contexts", g.n, move |i, cx| {
        let (v, (a, b)) = g.at(i);
        check_text(cx, &format!("{}{}{}", a, v.iter().collect::<String>(), b))
    }));
    // escaped text denotes itself, whatever it is
    let g = of(&["a", "{{", "}}", "\\", " ", "\n", "{", "{{-", "-}}", "{{1}}", "é", "\\\\"].map(String::from)).seq(0, t.pick(5, 6));
    r.push(Space::new("escaped", "text with every { and \\ escaped shows itself", g.n, move |i, cx| {
        let s = g.at(i).concat();
        let src = escaped(&s);
        cx.trace();
        cx.state(&s);
        cx.sample(|| format!("{:?} shows {:?}", src, s));
        match real_src(&src, &[], &cx.fm) {
            Real::Ok((got, _)) if got == s => Ok(()),
            r => viol(format!("{:?}", src), format!("should show {:?}; templito gives {:?}", s, r)),
        }
    }));
    // ladders: length
    let units = ["a", " ", "\n", "\\a", "\\ ", "\\\n\\", "{a", "}", "{{1}}", "{{-1-}}", " {{-1}}", "{{1-}} ", "é", "{{#c#}}", "a b\n", "\\\\", "-", "\\{{", "  \t"];
    let g = of(&units.map(String::from)).x(&of(&["", "z", " ", "{{-9}}", "\\", "\\ "].map(String::from))).x(&of(&[7usize, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000]));
    r.push(Space::new("long", "19 units repeated up to 1000 times, 6 endings", g.n, move |i, cx| {
        let ((u, e), n) = g.at(i);
        check_text(cx, &format!("{}{}", u.repeat(n), e))
    }));
    r
}

// ------------------------------------------------------------------ C02: the model of block structure
#[derive(Clone, Debug)]
pub enum Tag {
    Item(It),
    If(E),
    Elif(E),
    Else,
    For(String, String, E),
    Switch(E),
    Case(Vec<Pt>),
    As(E, Pt),
    Define(String),
    Global(String),
    AtLet(String),
    AtExport(String),
    Block(String),
    End(String),
}
fn tag_src(t: &Tag) -> String {
    // openers and closers are what the printer of the tree writes
    let open = |i: It, close: &str| {
        let s = source(&[i]);
        s.strip_suffix(close).expect("printer").to_string()
    };
    match t {
        Tag::Item(i) => source(&[i.clone()]),
        Tag::If(e) => open(It::If(vec![(e.clone(), vec![])], None), "{{/if}}"),
        Tag::Elif(e) => open(It::If(vec![(e.clone(), vec![])], None), "{{/if}}").replacen("if", "elif", 1),
        Tag::Else => "{{else}}".into(),
        Tag::For(k, v, e) => open(It::For(k.clone(), v.clone(), e.clone(), vec![]), "{{/for}}"),
        Tag::Switch(e) => open(It::Switch(e.clone(), vec![]), "{{/switch}}"),
        Tag::Case(p) => source(&[It::Switch(u(0), vec![(p.clone(), vec![])])]).strip_prefix("{{switch 0}}").unwrap().strip_suffix("{{/switch}}").unwrap().to_string(),
        Tag::As(e, p) => open(It::As(e.clone(), p.clone(), vec![]), "{{/as}}"),
        Tag::Define(n) => open(It::Define(n.clone(), vec![], vec![]), "{{/define}}"),
        Tag::Global(n) => open(It::Global(n.clone(), vec![], vec![]), "{{/global}}"),
        Tag::AtLet(n) => open(It::AtLet(n.clone(), vec![]), "{{/let}}"),
        Tag::AtExport(n) => open(It::AtExport(n.clone(), vec![]), "{{/export}}"),
        Tag::Block(c) => open(It::Block(c.clone(), vec![], vec![]), &format!("{{{{/{}}}}}", c)),
        Tag::End(n) => format!("{{{{/{}}}}}", n),
    }
}
/// One open block.  A push-down machine: the state is the stack.
enum Open {
    Root,
    /// arms so far, the condition of the current arm
    If(Vec<(E, Vec<It>)>, E),
    Else(Vec<(E, Vec<It>)>),
    Switch(E, Vec<(Vec<Pt>, Vec<It>)>, Option<Vec<Pt>>),
    Other(Tag),
}
pub fn tree(tags: &[Tag]) -> Result<Vec<It>, String> {
    let mut st: Vec<(Open, Vec<It>)> = vec![(Open::Root, vec![])];
    fn close(o: Open, b: Vec<It>) -> Result<It, String> {
        Ok(match o {
            Open::Root => unreachable!(),
            Open::If(mut arms, c) => {
                arms.push((c, b));
                It::If(arms, None)
            }
            Open::Else(arms) => It::If(arms, Some(b)),
            Open::Switch(e, mut cs, cur) => {
                if let Some(p) = cur {
                    cs.push((p, b));
                }
                It::Switch(e, cs)
            }
            Open::Other(t) => match t {
                Tag::For(k, v, e) => It::For(k, v, e, b),
                Tag::As(e, p) => It::As(e, p, b),
                Tag::Define(n) => It::Define(n, vec![], b),
                Tag::Global(n) => It::Global(n, vec![], b),
                Tag::AtLet(n) => It::AtLet(n, b),
                Tag::AtExport(n) => It::AtExport(n, b),
                Tag::Block(c) => It::Block(c, vec![], b),
                _ => unreachable!(),
            },
        })
    }
    fn closer(o: &Open) -> &str {
        match o {
            Open::Root => "",
            Open::If(..) | Open::Else(..) => "if",
            Open::Switch(..) => "switch",
            Open::Other(t) => match t {
                Tag::For(..) => "for",
                Tag::As(..) => "as",
                Tag::Define(_) => "define",
                Tag::Global(_) => "global",
                Tag::AtLet(_) => "let",
                Tag::AtExport(_) => "export",
                Tag::Block(c) => c,
                _ => unreachable!(),
            },
        }
    }
    for t in tags {
        if let (Open::Switch(_, _, None), _) = st.last().unwrap() {
            match t {
                Tag::Case(_) | Tag::Item(It::Text(_)) => {}
                Tag::End(n) if n == "switch" => {}
                _ => return Err("only text may come before the first case".into()),
            }
        }
        match t {
            Tag::Item(i) => {
                let top = st.last_mut().unwrap();
                if let Open::Switch(_, _, None) = top.0 {
                    continue;
                }
                top.1.push(i.clone());
            }
            Tag::Else | Tag::Elif(_) => match st.pop().unwrap() {
                (Open::If(mut arms, c), b) => {
                    arms.push((c, b));
                    match t {
                        Tag::Elif(e) => st.push((Open::If(arms, e.clone()), vec![])),
                        _ => st.push((Open::Else(arms), vec![])),
                    }
                }
                _ => return Err("else or elif outside if".into()),
            },
            Tag::Case(p) => match st.last_mut().unwrap() {
                (Open::Switch(_, cs, cur), b) => {
                    if let Some(p) = cur.take() {
                        cs.push((p, std::mem::take(b)));
                    }
                    *cur = Some(p.clone());
                }
                _ => return Err("case outside switch".into()),
            },
            Tag::If(e) => st.push((Open::If(vec![], e.clone()), vec![])),
            Tag::Switch(e) => st.push((Open::Switch(e.clone(), vec![], None), vec![])),
            Tag::End(n) => {
                if st.len() == 1 || closer(&st.last().unwrap().0) != n {
                    return Err("closer without its opener".into());
                }
                let (o, b) = st.pop().unwrap();
                let i = close(o, b)?;
                st.last_mut().unwrap().1.push(i);
            }
            o => st.push((Open::Other(o.clone()), vec![])),
        }
    }
    // the end of the text closes what is open, but an if needs its /if unless in its else branch
    while st.len() > 1 {
        let (o, b) = st.pop().unwrap();
        if let Open::If(..) = o {
            return Err("if is not closed".into());
        }
        let i = close(o, b)?;
        st.last_mut().unwrap().1.push(i);
    }
    Ok(st.pop().unwrap().1)
}
fn check_tags(cx: &mut Ctx, tags: &[Tag]) -> Res {
    let src: String = tags.iter().map(tag_src).collect();
    match tree(tags) {
        Err(why) => {
            cx.trace();
            cx.trans(tags.len() as u64);
            cx.state(&why);
            cx.sample(|| format!("{} is rejected: {}", src, why));
            match parse(&src) {
                Real::Err(_) => Ok(()),
                r => viol(src, format!("should be rejected ({}); templito gives {:?}", why, r)),
            }
        }
        Ok(body) => {
            let c = Case::new(body.clone()).params(&[V::Bool(true), V::Bool(false), V::UInt(2)]);
            // the tree means the same ...
            c.check(cx)?;
            cx.state(&source(&body));
            // ... and the flat source, in which end of text may close blocks, is read as that tree
            match (parse(&src), parse(&source(&body))) {
                (Real::Ok(a), Real::Ok(b)) => {
                    // comments and text before a case are not part of the tree
                    if a == b {
                        Ok(())
                    } else {
                        viol(src, format!("is not read as {}", source(&body)))
                    }
                }
                (a, _) => viol(src, format!("should be read as {}; templito gives {:?}", source(&body), a)),
            }
        }
    }
}
fn tag_alphabet() -> Vec<Tag> {
    let e = |s: &str| Tag::End(s.into());
    vec![
        Tag::Item(text("t")),
        Tag::If(var("0")),
        Tag::If(var("1")),
        Tag::Elif(var("0")),
        Tag::Elif(var("1")),
        Tag::Else,
        e("if"),
        Tag::For("i".into(), "v".into(), var("2")),
        e("for"),
        Tag::Switch(var("2")),
        Tag::Case(vec![Pt::Val(V::UInt(2))]),
        Tag::Case(vec![Pt::Val(V::UInt(3)), Pt::Cap("c".into(), None)]),
        e("switch"),
        Tag::As(var("2"), Pt::Cap("c".into(), None)),
        e("as"),
        Tag::Define("d".into()),
        e("define"),
        Tag::Global("g".into()),
        e("global"),
        Tag::AtLet("x".into()),
        e("let"),
        Tag::AtExport("y".into()),
        e("export"),
        Tag::Block("len".into()),
        e("len"),
    ]
}
/// make each text of a sequence its own
fn number(tags: Vec<Tag>) -> Vec<Tag> {
    let mut n = 0;
    let mut r: Vec<Tag> = vec![];
    for t in tags {
        match t {
            Tag::Item(It::Text(_)) => {
                // neighbouring texts would be one item
                if let Some(Tag::Item(It::Text(s))) = r.last_mut() {
                    s.push((b'a' + n) as char);
                } else {
                    r.push(Tag::Item(text(&((b'a' + n) as char).to_string())));
                }
                n = (n + 1) % 26;
            }
            t => r.push(t),
        }
    }
    r
}
pub fn c02(t: Tier) -> Vec<Space> {
    let space = |name: &str, al: Vec<Tag>, lo: u32, hi: u32| {
        let g = of(&al).seq(lo, hi);
        Space::new(name, format!("every sequence of {}..={} of the tags {:?}", lo, hi, al.iter().map(tag_src).collect::<Vec<_>>()), g.n, move |i, cx| {
            check_tags(cx, &number(g.at(i)))
        })
    };
    let al = tag_alphabet();
    let sub = |ix: &[usize]| ix.iter().map(|i| al[*i].clone()).collect::<Vec<_>>();
    let mut r = vec![
        space("all", al.clone(), 0, t.pick(4, 5)),
        space("if-chain", sub(&[0, 1, 2, 3, 4, 5, 6]), 0, t.pick(6, 8)),
        space("if-for", sub(&[0, 1, 5, 6, 7, 8]), 0, t.pick(6, 8)),
        space("switch", sub(&[0, 9, 10, 11, 12, 1, 6]), 0, t.pick(6, 8)),
        space("switch-in-if", sub(&[1, 3, 5, 6, 9, 10, 12]), 5, t.pick(6, 8)),
        space("named", sub(&[0, 13, 14, 15, 16, 23, 24]), 0, t.pick(6, 7)),
    ];
    // closers that close nothing
    let e = |s: &str| Tag::End(s.into());
    let odd = vec![
        al[0].clone(), al[1].clone(), al[5].clone(), al[7].clone(), al[9].clone(), al[10].clone(), al[23].clone(), e("if"), e("switch"), e("case"), e("else"), e("elif"), e("block"), e("nosuch"),
    ];
    r.push(space("odd-closers", odd, 0, t.pick(4, 5)));
    // nesting: every opener inside every opener, closed in order, out of order, or not at all
    let openers: Vec<(Tag, &str)> = vec![
        (al[1].clone(), "if"), (al[7].clone(), "for"), (al[9].clone(), "switch"), (al[13].clone(), "as"), (al[15].clone(), "define"),
        (al[17].clone(), "global"), (al[19].clone(), "let"), (al[21].clone(), "export"), (al[23].clone(), "len"),
    ];
    let g = of(&openers).seq(1, t.pick(3, 4)).x(&of(&[0usize, 1, 2, 3]));
    r.push(Space::new("nesting", "every chain of up to 3 (thorough 4) nested openers, closed in order / two closers swapped / one closer missing / one doubled", g.n, move |i, cx| {
        let (chain, how) = g.at(i);
        let mut tags = vec![];
        for (t, _) in &chain {
            tags.push(Tag::Item(text("t")));
            tags.push(t.clone());
            if let Tag::Switch(_) = t {
                tags.push(Tag::Case(vec![Pt::Any]));
            }
        }
        tags.push(Tag::Item(text("t")));
        let mut ends: Vec<&str> = chain.iter().rev().map(|(_, e)| *e).collect();
        match how {
            1 if ends.len() > 1 => ends.swap(0, 1),
            2 => {
                ends.pop();
            }
            3 => ends.push(ends[ends.len() - 1]),
            _ => {}
        }
        for e in ends {
            tags.push(Tag::End(e.into()));
            tags.push(Tag::Item(text("t")));
        }
        check_tags(cx, &number(tags))
    }));
    let names = ["if", "for", "switch", "as", "define", "global", "let", "export", "len", "case", "else", "elif", "cat", "block", "If", "fo", "iff", "L", "x"].map(String::from);
    let g = of(&openers).x(&of(&openers)).x(&of(&names)).x(&of(&[0usize, 1, 2, 3]));
    r.push(Space::new("wrong-closer", "every opener in every opener, closed by each of 19 names, in its first part / after else or a second case", g.n, move |i, cx| {
        let (((o1, o2), n), how) = g.at(i);
        let mut tags = vec![];
        for (k, (t, _)) in [&o1, &o2].iter().enumerate() {
            tags.push(t.clone());
            if let Tag::Switch(_) = t {
                tags.push(Tag::Case(vec![Pt::Val(V::UInt(2))]));
            }
            tags.push(Tag::Item(text("t")));
            if how & (1 << k) != 0 {
                match t {
                    Tag::If(_) => tags.push(Tag::Else),
                    Tag::Switch(_) => tags.push(Tag::Case(vec![Pt::Any])),
                    _ => {}
                }
                tags.push(Tag::Item(text("t")));
            }
        }
        tags.push(Tag::End(n));
        tags.push(Tag::Item(text("t")));
        tags.push(Tag::End(o1.1.into()));
        tags.push(Tag::Item(text("t")));
        check_tags(cx, &number(tags))
    }));
    // depth and length ladders
    let openers2 = vec![
        (Tag::If(var("0")), "if"), (Tag::For("i".into(), "v".into(), u(1)), "for"), (Tag::Switch(var("2")), "switch"), (Tag::As(var("2"), Pt::Any), "as"),
        (Tag::AtLet("x".into()), "let"), (Tag::AtExport("y".into()), "export"), (Tag::Block("cat".into()), "cat"), (Tag::Define("d".into()), "define"), (Tag::Global("g".into()), "global"),
    ];
    let top = t.pick(24, 48);
    let g = of(&openers2).x(&of(&openers2)).x(&of(&(1..=top).collect::<Vec<usize>>()));
    r.push(Space::new("depth", "alternating openers nested to every depth up to 24 (thorough 48), 9x9 pairs", g.n, move |i, cx| {
        let ((a, b), n) = g.at(i);
        let mut tags = vec![];
        let mut ends = vec![];
        for k in 0..n {
            let (t, e) = if k % 2 == 0 { &a } else { &b };
            tags.push(Tag::Item(text("t")));
            tags.push(t.clone());
            if let Tag::Switch(_) = t {
                tags.push(Tag::Case(vec![Pt::Any]));
            }
            ends.push(*e);
        }
        tags.push(Tag::Item(text("t")));
        while let Some(e) = ends.pop() {
            tags.push(Tag::End(e.into()));
            tags.push(Tag::Item(text("t")));
        }
        check_tags(cx, &number(tags))
    }));
    let g = of(&(1..=t.pick(40usize, 120)).collect::<Vec<_>>()).x(&of(&[0usize, 1, 2, 3, 4]));
    r.push(Space::new("width", "n blocks one after the other, n elif arms, n cases, n items", g.n, move |i, cx| {
        let (n, how) = g.at(i);
        let t = Tag::Item(text("t"));
        let mut tags = vec![];
        match how {
            0 => {
                for _ in 0..n {
                    tags.extend([t.clone(), Tag::If(var("0")), t.clone(), Tag::Else, t.clone(), Tag::End("if".into())]);
                }
            }
            1 => {
                tags.push(Tag::If(var("1")));
                for _ in 0..n {
                    tags.extend([t.clone(), Tag::Elif(var("1"))]);
                }
                tags.extend([t.clone(), Tag::Else, t.clone(), Tag::End("if".into()), t.clone()]);
            }
            2 => {
                tags.push(Tag::Switch(var("2")));
                for k in 0..n {
                    tags.extend([Tag::Case(vec![Pt::Val(V::UInt((n + 1 - k) as u64))]), t.clone()]);
                }
                tags.extend([Tag::Case(vec![Pt::Any]), t.clone(), Tag::End("switch".into()), t.clone()]);
            }
            3 => {
                for k in 0..n {
                    tags.extend([t.clone(), Tag::Item(It::Exp(u(k as u64)))]);
                }
            }
            _ => {
                for _ in 0..n {
                    tags.extend([Tag::For("i".into(), "v".into(), u(1)), t.clone(), Tag::End("for".into())]);
                }
            }
        }
        check_tags(cx, &number(tags))
    }));
    // blocks after many items, within each block and each part of it
    let pieces = vec![
        vec![Tag::Item(text("t")), Tag::Item(It::Exp(u(0)))],
        vec![Tag::Item(It::Let(vec![("x".into(), u(0))]))],
        vec![Tag::Item(It::Comment("c".into())), Tag::Item(text("t"))],
        vec![Tag::If(var("0")), Tag::Item(text("t")), Tag::End("if".into())],
        vec![Tag::For("i".into(), "v".into(), u(1)), Tag::Else, Tag::End("for".into())],
    ];
    let tops = t.pick(24usize, 72);
    let g = of(&openers2).opt().x(&of(&openers2)).x(&of(&pieces)).x(&of(&(0..=tops).collect::<Vec<_>>())).x(&of(&[0usize, 1, 2, 3]));
    r.push(Space::new("items-and-blocks", "n items of 5 kinds (one misplaced) before one of 9 blocks, at the top or in one of 9 blocks, in its first or second part, with as many or one after; n up to 24 (thorough 72)", g.n, move |i, cx| {
        let ((((outer, inner), p), n), how) = g.at(i);
        let t = Tag::Item(text("t"));
        let mut tags = vec![];
        let open = |tags: &mut Vec<Tag>, o: &Tag| {
            tags.push(o.clone());
            if let Tag::Switch(_) = o {
                tags.push(Tag::Case(vec![Pt::Any]));
            }
        };
        if let Some((o, _)) = &outer {
            open(&mut tags, o);
            if how & 1 == 1 {
                tags.push(t.clone());
                match o {
                    Tag::If(_) => tags.push(if n % 2 == 0 { Tag::Else } else { Tag::Elif(u(1)) }),
                    Tag::Switch(_) => tags.push(Tag::Case(vec![Pt::Cap("c".into(), None)])),
                    _ => {}
                }
            }
        } else if how & 1 == 1 {
            return Ok(());
        }
        for _ in 0..n {
            tags.extend(p.clone());
        }
        open(&mut tags, &inner.0);
        tags.push(t.clone());
        tags.push(Tag::End(inner.1.into()));
        for _ in 0..if how & 2 == 2 { n } else { 1 } {
            tags.push(t.clone());
        }
        if let Some((_, e)) = &outer {
            tags.push(Tag::End((*e).into()));
        }
        check_tags(cx, &number(tags))
    }));
    r
}
