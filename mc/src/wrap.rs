//! C19 word_wrap, C23 table and md.
use crate::common::*;
use crate::ctl::kinds;
use crate::engine::*;
use crate::gen::*;
use crate::val::V;

fn plain_ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r')
}
fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !plain_ws(*c)).collect()
}
fn lines_of(r: &Real<V>) -> Option<Vec<String>> {
    match r {
        Real::Ok(V::List(x)) => x.iter().map(|v| if let V::Str(s) = v { Some(s.clone()) } else { None }).collect(),
        _ => None,
    }
}
/// one call of word_wrap against the conditions that define it
fn check_wrap(cx: &mut Ctx, s: &str, w: &V) -> Res {
    let width = w.as_usize().expect("width");
    let a = [V::s(s), w.clone()];
    let got = call_fn(&cx.fm, "word_wrap", &a);
    cx.trace();
    cx.trans(1);
    let key = key_call("word_wrap", &a);
    let ls = match lines_of(&got) {
        Some(x) => x,
        None => return viol(key, format!("is no list of strings: {}", rv(&got))),
    };
    cx.state(&ls);
    if ls.len() > 1 {
        cx.nontrivial();
    }
    cx.sample(|| format!("{} -> {:?}", key, ls));
    let bad = |m: String| viol(key.clone(), format!("{}; the lines are {:?}", m, ls));
    // nothing but white space is lost, added or reordered
    let joined: String = ls.concat();
    if squeeze(&joined) != squeeze(s) {
        return bad("text is lost, added or reordered".into());
    }
    // the text within each line is text of the input, white space included
    let mut at = 0;
    let mut pos = vec![];
    for x in &ls {
        match s[at..].find(x.as_str()) {
            Some(p) if s[at..at + p].chars().all(plain_ws) => {
                pos.push((at + p, at + p + x.len()));
                at += p + x.len();
            }
            _ => return bad(format!("{:?} does not follow in the text", x)),
        }
        if x.starts_with(plain_ws) || x.ends_with(plain_ws) {
            return bad(format!("{:?} has white space at an end", x));
        }
        if x.contains('\n') {
            return bad(format!("{:?} contains a newline", x));
        }
        if x.chars().count() as u64 > width.max(1) {
            return bad(format!("{:?} is wider than {}", x, width));
        }
    }
    // breaks: at a newline, at white space, or within a word that has no room; and not before they are needed
    for n in 1..ls.len() {
        let ((b0, e0), (b1, e1)) = (pos[n - 1], pos[n]);
        let gap = &s[e0..b1];
        if gap.contains('\n') || ls[n - 1].is_empty() || ls[n].is_empty() {
            continue;
        }
        let word_end = |from: usize| s[from..].find([' ', '\t', '\n']).map_or(s.len(), |x| from + x);
        let word_start = |to: usize| s[..to].rfind([' ', '\t', '\n']).map_or(0, |x| x + 1);
        if gap.is_empty() {
            let word = &s[word_start(e0)..word_end(b1)];
            if (word.chars().count() as u64) < width {
                return bad(format!("the word {:?} is broken though it fits in {}", word, width));
            }
        } else {
            let next = &s[b1..word_end(b1)];
            // with the next word the line would have been full, or the white space took the room
            let with = s[b0..b1].chars().count() + next.chars().count();
            let lead = s[..b0].chars().rev().take_while(|c| matches!(c, ' ' | '\t' | '\r')).count();
            if ((with + lead) as u64) < width {
                return bad(format!("broken before {:?} though it fits", next));
            }
        }
        let _ = e1;
    }
    // newlines end lines: the text before one and the text after it are wrapped on their own
    if let Some(p) = s.find('\n') {
        let f = |cx: &Ctx, x: &str| lines_of(&call_fn(&cx.fm, "word_wrap", &[V::s(x), w.clone()])).unwrap_or_default();
        let mut sep = f(cx, &s[..p]);
        if s[..p].is_empty() {
            sep.push(String::new());
        }
        sep.extend(f(cx, &s[p + 1..]));
        cx.trans(2);
        let strip = |x: &Vec<String>| x.iter().filter(|l| !l.is_empty()).cloned().collect::<Vec<_>>();
        if strip(&sep) != strip(&ls) {
            return bad(format!("the text before the newline and the text after it alone give {:?}", sep));
        }
    }
    Ok(())
}
pub fn c19(t: Tier) -> Vec<Space> {
    let ws: Vec<V> = (0..=9u64).map(V::UInt).collect();
    let al = ["a", "é", " ", "\n"];
    let g = of(&al).seq(0, t.pick(7, 8)).x(&of(&ws));
    let mk = |name: &str, b: &str, g: G<(String, V)>| {
        Space::new(name, b, g.n, move |i, cx| {
            let (s, w) = g.at(i);
            check_wrap(cx, &s, &w)
        })
    };
    let mut r = vec![mk("chars", "every string of up to 7 (thorough 8) of a letter, a two-byte letter, space, newline x width 0-9", g.map(|(s, w)| (s.concat(), w)))];
    let words = ["a", "bcd", "漢字漢", "efghijk", " ", "  ", "\n", "\t", "\u{a0}", "\r\n", "🎉"];
    let w2: Vec<V> = [1u64, 3, 4, 5, 7, 8, 12].iter().map(|n| V::UInt(*n)).collect();
    r.push(mk("words", "every sequence of up to 4 (thorough 6) of 11 words and kinds of white space x 7 widths", of(&words).seq(0, t.pick(4, 6)).x(&of(&w2)).map(|(s, w)| (s.concat(), w))));
    let spaced = of(&["a", "bc", "def", "ghij", "éé"]);
    r.push(mk("sentences", "every sentence of up to 6 (thorough 7) of 5 words with single spaces x width 1-9", spaced.seq(0, t.pick(6, 7)).x(&of(&ws[1..])).map(|(s, w)| (s.join(" "), w))));
    r.push(mk("lines", "every 0-3 lines of up to 3 of 3 words", of(&["a", "bcd", "efghi"]).seq(0, 3).map(|w| w.join(" ")).seq(0, 3).x(&of(&[V::UInt(3), V::UInt(5), V::Int(6), V::UInt(9)])).map(|(s, w)| (s.join("\n"), w))));
    let top = t.pick(80u64, 300);
    let units = ["a", "é", "ab ", "漢字 漢 ", " ", "\n", "a\n", "abc\t", "word word, "];
    r.push(Space::new("ladder", "9 units repeated up to 80 (thorough 300) times x 15 widths up to the largest number", (top + 1) * 9 * 15, move |i, cx| {
        let mut d = Digits(i);
        let n = d.take(top + 1) as usize;
        let u = *d.pick(&units);
        let w = [V::UInt(0), V::UInt(1), V::UInt(2), V::UInt(3), V::Int(10), V::UInt(11), V::UInt(20), V::UInt(63), V::UInt(64), V::UInt(65), V::UInt(79), V::UInt(80), V::UInt(81), V::UInt(u64::MAX), V::Int(i64::MAX)];
        check_wrap(cx, &u.repeat(n), d.pick(&w))
    }));
    // other kinds of argument
    let g = of(&kinds()).seq(0, 2);
    r.push(Space::new("kinds", "every 0-2 values of all kinds: the text of the value is wrapped, a width that is no number is an error", g.n, move |i, cx| {
        let a = g.at(i);
        match (a.get(0), a.get(1).and_then(|w| w.as_usize())) {
            (Some(x), Some(_)) => {
                let want = call_fn(&cx.fm, "word_wrap", &[V::Str(x.show()), a[1].clone()]);
                match want {
                    Real::Ok(v) => check_call_with(cx, "word_wrap", &a, Ok(v)),
                    e => viol(key_call("word_wrap", &a), rv(&e)),
                }
            }
            _ => check_call_with(cx, "word_wrap", &a, Err("no width".into())),
        }
    }));
    let g = of(&["a", "bcd", " ", "\n", "é"]).seq(0, 4).x(&of(&[1u64, 3, 5]));
    r.push(Space::new("templates", "looped over in a template", g.n, move |i, cx| {
        let (s, w) = g.at(i);
        let s = s.concat();
        let ls = lines_of(&call_fn(&cx.fm, "word_wrap", &[V::s(&s), V::UInt(w)])).unwrap_or_default();
        let got = real_src(&format!("{{{{for i l in word_wrap $0 {}}}}}{{{{$i}}}}:{{{{$l}}}};{{{{/for}}}}", w), &[V::s(&s)], &cx.fm);
        cx.trace();
        cx.trans(1);
        let want: String = ls.iter().enumerate().map(|(i, l)| format!("{}:{};", i, l)).collect();
        match &got {
            Real::Ok(o) if o.0 == want => Ok(()),
            g => viol(format!("word_wrap {:?} {} in a loop", s, w), format!("{:?} should be {:?}", g, want)),
        }
    }));
    let g = crate::chars::placed().x(&of(&[0u64, 1, 2, 3, 4, 7]));
    r.push(Space::new("every-character", "every ASCII character and 40 others in 8 places of a word among others x 6 widths", g.n, move |i, cx| {
        let (x, w) = g.at(i);
        check_wrap(cx, &x, &V::UInt(w))?;
        check_wrap(cx, &format!("w {} {}", x, x), &V::UInt(w))
    }));
    r
}

// ------------------------------------------------------------------ C23
/// a table as the reference sees it: rows of (head, cells)
fn table_rows(s: &str) -> Vec<(bool, Vec<String>)> {
    let mut rows: Vec<(bool, Vec<String>)> = vec![];
    let mut cur: Option<Vec<String>> = None;
    let mut head = false;
    for line in s.split('\n') {
        let (star, x) = line.strip_prefix('*').map_or((false, line), |x| (true, x));
        let (cont, x) = x.strip_prefix('-').map_or((false, x), |x| (true, x));
        if !cont {
            if let Some(c) = cur.take() {
                rows.push((head, c));
            }
            head = false;
        }
        head |= star;
        let parts: Vec<&str> = x.split('|').collect();
        if parts.len() <= 3 {
            continue;
        }
        let cells = &parts[1..parts.len() - 1];
        match &mut cur {
            None => cur = Some(cells.iter().map(|c| c.trim().to_string()).collect()),
            Some(v) => {
                for (n, c) in cells.iter().enumerate() {
                    if n < v.len() {
                        v[n].push(' ');
                        v[n].push_str(c.trim());
                    } else {
                        v.push(c.trim().to_string());
                    }
                }
            }
        }
    }
    if let Some(c) = cur {
        rows.push((head, c));
    }
    for r in &mut rows {
        for c in &mut r.1 {
            *c = norm(c);
        }
    }
    rows
}
/// white space as html shows it
fn norm(s: &str) -> String {
    // other white space at the ends of a cell, and of what continues it, may stay or go
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}
/// read the html back: attributes and rows; every row all heads or all cells
fn read_table(h: &str) -> Option<(String, Vec<(bool, Vec<String>)>)> {
    let h = h.trim();
    let x = h.strip_prefix("<table")?.strip_suffix("</table>")?;
    let (attrs, mut x) = x.split_once('>')?;
    let mut rows = vec![];
    x = x.trim();
    while !x.is_empty() {
        let y = x.strip_prefix("<tr>")?;
        let (mut row, rest) = y.split_once("</tr>")?;
        let mut cells = vec![];
        let mut heads = 0;
        row = row.trim();
        while !row.is_empty() {
            let (tag, r) = if let Some(r) = row.strip_prefix("<th>") { ("</th>", r) } else { ("</td>", row.strip_prefix("<td>")?) };
            let (c, r) = r.split_once(tag)?;
            if tag == "</th>" {
                heads += 1;
            }
            cells.push(norm(c));
            row = r.trim();
        }
        if heads != 0 && heads != cells.len() {
            return None;
        }
        rows.push((heads > 0, cells));
        x = rest.trim();
    }
    Some((attrs.trim().to_string(), rows))
}
fn check_table(cx: &mut Ctx, s: &str, attrs: Option<&str>) -> Res {
    let want = table_rows(s);
    let mut a = vec![V::s(s)];
    a.extend(attrs.map(V::s));
    let got = call_fn(&cx.fm, "table", &a);
    cx.trace();
    cx.trans(s.lines().count() as u64 + 1);
    cx.state(&want);
    if !want.is_empty() {
        cx.nontrivial();
    }
    let key = key_call("table", &a);
    cx.sample(|| format!("{} -> {:?}", key, want));
    match &got {
        Real::Ok(V::Str(h)) => match read_table(h) {
            Some((at, rows)) if rows == want && at == attrs.unwrap_or("").trim() => Ok(()),
            o => viol(key, format!("rows should be {:?}, are {:?} in {:?}", want, o, h)),
        },
        g => viol(key, format!("rows should be {:?}, gives {}", want, rv(g))),
    }
}
pub fn c23(t: Tier) -> Vec<Space> {
    let al = ["|", "a", "\n", "*", "-", " "];
    let g = of(&al).seq(0, t.pick(8, 9));
    let mut r = vec![Space::new("chars", "every text of up to 8 (thorough 9) of | a newline * - space", g.n, move |i, cx| check_table(cx, &g.at(i).concat(), None))];
    let rows = ["|a|b|", "*|h|i|", "-|c|d|", "*-|x|y|", "|a|b|c|", "-|c|d|e|f|", "", " | é | <b> | ", "|one|", "text", "-|*|-|", "| |  |", "--|z|z|", "-"];
    let g = of(&rows).seq(0, t.pick(4, 5)).x(&of(&[false, true]));
    r.push(Space::new("rows", "every sequence of up to 4 (thorough 5) of 14 rows, with and without a newline at the end", g.n, move |i, cx| {
        let (x, nl) = g.at(i);
        check_table(cx, &(x.join("\n") + if nl { "\n" } else { "" }), None)
    }));
    let g = of(&rows[..8]).seq(0, 2).x(&of(&["", "class=\"c\"", "id=a b=é", " x "]));
    r.push(Space::new("attributes", "the second argument becomes the attributes of the table", g.n, move |i, cx| {
        let (x, a) = g.at(i);
        check_table(cx, &x.join("\n"), Some(a))
    }));
    let cells = of(&["", "a", " b ", "é漢", "-", "*", "x y", "<i>1</i>"]);
    let g = cells.seq(2, t.pick(4, 5)).x(&of(&["", "*", "-", "*-"]));
    r.push(Space::new("cells", "every row of 2-4 (thorough 5) of 8 cells, as row, head, continuation after another row", g.n, move |i, cx| {
        let (c, p) = g.at(i);
        check_table(cx, &format!("|p|q|\n{}|{}|", p, c.join("|")), None)
    }));
    let top = t.pick(70u64, 200);
    r.push(Space::new("ladder", "n columns, n rows, n heads, n continuations, rows of growing length, n blank lines, n up to 70 (thorough 200)", (top + 1) * 6, move |i, cx| {
        let n = (i % (top + 1)) as usize;
        let s = match i / (top + 1) {
            0 => format!("|{}", "c|".repeat(n)),
            1 => "|a|b|\n".repeat(n),
            2 => "*|a|b|\n".repeat(n),
            3 => format!("|a|b|\n{}", "-|c|d|\n".repeat(n)),
            4 => (0..n).map(|k| format!("-|{}\n", "x|".repeat(k))).collect(),
            _ => format!("|a|b|{}|c|d|", "\n".repeat(n)),
        };
        check_table(cx, &s, None)
    }));
    let g = of(&rows).seq(1, 2);
    r.push(Space::new("block", "@table over a block with a tag in a cell", g.n, move |i, cx| {
        let x = g.at(i).join("\n");
        let src = format!("{{{{@table}}}}{}\n|{{{{$0}}}}|{{{{cat $0 $0}}}}|{{{{/table}}}}", x);
        let want = table_rows(&format!("{}\n|v|vv|", x));
        let got = real_src(&src, &[V::s("v")], &cx.fm);
        cx.trace();
        cx.trans(1);
        match &got {
            Real::Ok(o) if read_table(&o.0).map(|x| x.1).as_ref() == Some(&want) => Ok(()),
            o => viol(src, format!("rows should be {:?}: {:?}", want, o)),
        }
    }));
    r.push(Space::new("table-args", "no argument is an error; other kinds of value are read as their text", kinds().len() as u64 + 1, move |i, cx| {
        if i == 0 {
            return check_call_with(cx, "table", &[], Err("no argument".into()));
        }
        let v = &kinds()[i as usize - 1];
        let want = table_rows(&v.show());
        let got = call_fn(&cx.fm, "table", &[v.clone()]);
        cx.trace();
        match &got {
            Real::Ok(V::Str(h)) if read_table(h).map(|x| x.1).as_ref() == Some(&want) => Ok(()),
            g => viol(key_call("table", &[v.clone()]), format!("{} should have the rows {:?}", rv(g), want)),
        }
    }));
    // markdown: blocks and spans whose html is known without a markdown library
    let spans: Vec<(&str, &str)> = vec![("plain", "plain"), ("*e*", "<em>e</em>"), ("**s**", "<strong>s</strong>"), ("`c<`", "<code>c&lt;</code>"), ("a & b", "a &amp; b"), ("[t](u)", "<a href=\"u\">t</a>"), ("é漢", "é漢"), ("1 < 2", "1 &lt; 2"), ("~~d~~", "<del>d</del>")];
    let mut blocks: Vec<(String, String)> = vec![];
    for (m, h) in &spans {
        blocks.push((m.to_string(), format!("<p>{}</p>", h)));
        for n in [1usize, 2, 6] {
            blocks.push((format!("{} {}", "#".repeat(n), m), format!("<h{0}>{1}</h{0}>", n, h)));
        }
        blocks.push((format!("* {}\n* x", m), format!("<ul>\n<li>{}</li>\n<li>x</li>\n</ul>", h)));
        blocks.push((format!("1. {}\n2. x", m), format!("<ol>\n<li>{}</li>\n<li>x</li>\n</ol>", h)));
        blocks.push((format!("> {}", m), format!("<blockquote>\n<p>{}</p>\n</blockquote>", h)));
        blocks.push((format!("{}\n{}", m, m), format!("<p>{}\n{}</p>", h, h)));
    }
    blocks.push(("    code <".into(), "<pre><code>code &lt;</code></pre>".into()));
    blocks.push(("```\nfence &\n```".into(), "<pre><code>fence &amp;\n</code></pre>".into()));
    blocks.push(("|a|b|\n|-|-|\n|1|2|".into(), "<table><thead><tr><th>a</th><th>b</th></tr></thead><tbody>\n<tr><td>1</td><td>2</td></tr>\n</tbody></table>".into()));
    blocks.push(("- [x] done".into(), "<ul>\n<li><input disabled=\"\" type=\"checkbox\" checked=\"\"/>\ndone</li>\n</ul>".into()));
    blocks.push(("<div>raw</div>".into(), "<div>raw</div>".into()));
    let n = blocks.len();
    let bl = std::sync::Arc::new(blocks);
    let g = of(&(0..n).collect::<Vec<_>>()).seq(0, 2);
    let b2 = bl.clone();
    r.push(Space::new("markdown", "every document of up to 2 of 77 blocks (9 spans x paragraph, headings, lists, quote; code, table, task, html) against known html", g.n, move |i, cx| {
        let x = g.at(i);
        // html and code run into what follows or precedes
        let tail = |k: usize| k + 5 >= b2.len();
        if x.len() == 2 && (x.iter().any(|k| tail(*k)) || (b2[x[0]].0.starts_with(['*', '1', '-']) && b2[x[1]].0.starts_with(['*', '1', '-', ' '])) || (b2[x[0]].0.starts_with('>') && b2[x[1]].0.starts_with('>'))) {
            return Ok(());
        }
        let src = x.iter().map(|k| b2[*k].0.clone()).collect::<Vec<_>>().join("\n\n");
        let want: String = x.iter().map(|k| b2[*k].1.clone() + "\n").collect();
        let got = call_fn(&cx.fm, "md", &[V::s(&src)]);
        cx.trace();
        cx.trans(1);
        cx.state(&want);
        cx.nontrivial();
        cx.sample(|| format!("md {:?} -> {:?}", src, want));
        match &got {
            Real::Ok(V::Str(h)) if h.trim_end() == want.trim_end() => Ok(()),
            g => viol(key_call("md", &[V::s(&src)]), format!("should be {:?}, is {}", want, rv(g))),
        }
    }));
    let al = ["a", "*", "\n", "#", " ", "[", "](", "`", "<", "-"];
    r.push(calls("markdown-texts", "every text of up to 4 (thorough 5) of 10 pieces as the markdown library renders it with all extensions", of(&al).seq(0, t.pick(4, 5)).map(|x| ("md".to_string(), vec![V::Str(x.concat())]))));
    r.push(calls("markdown-args", "md of every 0-2 values of all kinds: each rendered on its own, joined", of(&kinds()).seq(0, 2).map(|a| ("md".to_string(), a))));
    let b2 = bl.clone();
    r.push(Space::new("markdown-block", "@md over a block, with loops that make list items", n as u64 * 3, move |i, cx| {
        let (m, h) = &b2[(i % b2.len() as u64) as usize];
        let k = i / b2.len() as u64;
        let (src, want) = if k == 0 {
            ("{{@md}}{{$0}}{{/md}}".to_string(), h.clone())
        } else if m.contains('\n') || m.starts_with(['#', ' ', '>', '-', '<']) {
            return Ok(());
        } else {
            let inner = h.strip_prefix("<p>").and_then(|x| x.strip_suffix("</p>")).unwrap_or(h);
            (format!("{{{{@md}}}}{{{{for k v in [{}]}}}}* {{{{$0}}}}\n{{{{/for}}}}{{{{/md}}}}", if k == 1 { "1" } else { "1,2" }), format!("<ul>\n{}</ul>", format!("<li>{}</li>\n", inner).repeat(k as usize)))
        };
        let got = real_src(&src, &[V::s(m)], &cx.fm);
        cx.trace();
        cx.trans(1);
        match &got {
            Real::Ok(o) if o.0.trim_end() == want => Ok(()),
            g => viol(format!("{} with {:?}", src, m), format!("should be {:?}, is {:?}", want, g)),
        }
    }));
    let g = crate::chars::placed().x(&of(&(0..5usize).collect::<Vec<_>>()));
    r.push(Space::new("every-character", "every ASCII character and 40 others in 8 places of a cell, a head, a row, before and after", g.n, move |i, cx| {
        let (x, how) = g.at(i);
        let s = match how {
            0 => format!("|{}|b|", x),
            1 => format!("*|a|{}|\n|c|d|", x),
            2 => format!("|a|b|\n-|{}|e|", x),
            3 => format!("|a|b|\n{}\n|c|d|", x),
            _ => x,
        };
        check_table(cx, &s, None)
    }));
    r
}
