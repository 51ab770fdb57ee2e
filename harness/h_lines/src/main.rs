//! Lines, columns and byte positions (crates/zuban_python/src/lines.rs).
#[allow(dead_code)]
#[path = "/repo/crates/zuban_python/src/lines.rs"]
mod lines;
include!(concat!(env!("OUT_DIR"), "/pos.rs"));
use lines::NewlineIndices;

zsym::entries!(h_pos, h_lines);

const PARTS: &[&str] = &["a", "\n", "\u{1d11e}", "\r", "\r\n", "\u{e9}", "\u{20ac}"];

fn text() -> String {
    let n = NewlineIndices::new();
    std::hint::black_box(n.position_infos("a\r\nb\r", 3));
    zsym::begin();
    let mut s = String::new();
    let k = (zsym::param(1) as usize).min(PARTS.len());
    for _ in 0..zsym::param(0) {
        s.push_str(PARTS[zsym::split(zsym::range(0, k as u8 - 1) as u64) as usize]);
    }
    s
}

/// start, end without and end with the line ending of every line
fn naive(s: &str) -> Vec<(usize, usize, usize)> {
    let b = s.as_bytes();
    let (mut out, mut start, mut i) = (vec![], 0, 0);
    while i < b.len() {
        let n = match b[i] {
            b'\r' if b.get(i + 1) == Some(&b'\n') => 2,
            b'\r' | b'\n' => 1,
            _ => {
                i += 1;
                continue;
            }
        };
        out.push((start, i, i + n));
        i += n;
        start = i;
    }
    out.push((start, b.len(), b.len()));
    out
}

/// between the two characters of a line ending?
fn split_newline(s: &str, i: usize) -> bool {
    i > 0 && i < s.len() && &s.as_bytes()[i - 1..=i] == b"\r\n"
}

fn units(s: &str, enc: u8) -> usize {
    match enc {
        0 => s.len(),
        1 => s.encode_utf16().count(),
        _ => s.chars().count(),
    }
}

fn input(enc: u8, line: usize, column: usize) -> InputPosition {
    match enc {
        0 => InputPosition::Utf8Bytes { line, column },
        1 => InputPosition::Utf16CodeUnits { line, column },
        _ => InputPosition::CodePoints { line, column },
    }
}

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_pos() {
    let s = text();
    let n = NewlineIndices::new();
    let all = naive(&s);
    // from positions to lines and columns
    for i in 0..=s.len() {
        if !s.is_char_boundary(i) || split_newline(&s, i) {
            continue;
        }
        let p = n.position_infos(&s, i as u32);
        let (l, &(start, ..)) = all.iter().enumerate().rev().find(|(_, x)| x.0 <= i).unwrap();
        zsym::check(p.line_zero_based() == l && p.line_one_based() == l + 1, "the line of a position");
        zsym::check(p.byte_position == i, "the byte of a position");
        let part = &s[start..i];
        zsym::check(p.utf8_bytes_column() == units(part, 0), "the column in bytes");
        zsym::check(p.utf16_code_units_column() == units(part, 1), "the column in UTF-16 code units");
        zsym::check(p.code_points_column() == units(part, 2), "the column in code points");
        let r = n.line_column_to_byte(&s, InputPosition::NthUTF8Byte(i));
        zsym::check(r.is_ok_and(|r| r.byte as usize == i && !r.column_out_of_bounds), "the nth byte");
    }
    zsym::check(n.line_column_to_byte(&s, InputPosition::NthUTF8Byte(s.len() + 1)).is_ok_and(|r| r.byte as usize == s.len() && r.column_out_of_bounds), "a byte behind the end");
    zsym::check(n.line_column_to_safe_byte(&s, InputPosition::NthUTF8Byte(s.len() + 1)).is_err(), "a byte behind the end is not safe");
    // and back
    for enc in 0..3 {
        for (l, &(start, end, full)) in all.iter().enumerate() {
            let line = &s[start..end];
            let len = units(line, enc);
            for c in 0..len + 3 {
                let r = n.line_column_to_byte(&s, input(enc, l, c));
                let safe = n.line_column_to_safe_byte(&s, input(enc, l, c));
                // the byte where the column starts, if it is between two characters
                let at = (0..=line.len()).filter(|&k| line.is_char_boundary(k)).find(|&k| units(&line[..k], enc) == c);
                if let Some(k) = at {
                    zsym::check(r.is_ok_and(|r| r.byte as usize == start + k && !r.column_out_of_bounds), "a line and column lead to another byte");
                    zsym::check(safe.is_ok_and(|b| b as usize == start + k), "a line and column that exist are rejected");
                    zsym::cover(0);
                } else if c < len {
                    zsym::check(r.is_err() && safe.is_err(), "a column inside of a character is accepted");
                    zsym::cover(1);
                } else if full - end == 2 && c == len + 1 {
                    // (the first character of the line ending might count)
                    zsym::check(r.is_ok_and(|r| (end..full).contains(&(r.byte as usize))), "a column behind a line");
                } else {
                    let e = if full - end == 2 { end..full } else { end..end + 1 };
                    zsym::check(r.is_ok_and(|r| e.contains(&(r.byte as usize)) && r.column_out_of_bounds), "a column behind the end of a line leads elsewhere");
                    zsym::check(safe.is_err(), "a column behind the end of a line is accepted");
                }
            }
        }
        zsym::check(n.line_column_to_byte(&s, input(enc, all.len(), 0)).is_err(), "a line behind the end is accepted");
        zsym::check(n.line_column_to_byte(&s, input(enc, all.len() + 1, 0)).is_err(), "a line behind the end is accepted");
    }
    zsym::out_str(&s);
}

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn h_lines() {
    let s = text();
    let n = NewlineIndices::new();
    let all = naive(&s);
    zsym::check(lines::split_lines(&s).eq(all.iter().map(|x| &s[x.0..x.1])), "the text is split into other lines");
    // a line ending at the end does not start another line
    let mut want: Vec<_> = all.iter().enumerate().collect();
    if all.len() > 1 && all[all.len() - 1].0 == s.len() {
        want.pop();
    }
    for skip in 0..all.len() + 2 {
        let got: Vec<_> = n.numbers_with_lines(&s, skip).collect();
        let rest = want.get(skip..).unwrap_or(&[]);
        zsym::check(got.len() == rest.len(), "another number of lines");
        for (g, w) in got.iter().zip(rest) {
            let line = &s[w.1.0..w.1.1];
            let plain = if w.1.2 - w.1.1 == 2 { g.1.strip_suffix('\r').unwrap_or(g.1) } else { g.1 };
            zsym::check(g.0 == w.0 && plain == line, "another line");
        }
    }
    let line_of = |i: usize| *all.iter().rev().find(|x| x.0 <= i).unwrap();
    for a in 0..=s.len() {
        for b in a..=s.len() {
            if [a, b].iter().any(|&i| !s.is_char_boundary(i) || split_newline(&s, i)) {
                continue;
            }
            let r = n.expand_range_to_full_lines(&s, a as u32..b as u32);
            let (start, e) = (line_of(a).0, line_of(b));
            let end = r.end as usize;
            zsym::check(r.start as usize == start && (end == e.1 || e.2 - e.1 == 2 && end == e.1 + 1), "a range of full lines");
            let (pa, pb) = (n.position_infos(&s, a as u32), n.position_infos(&s, b as u32));
            zsym::check(pa.code_until(pb) == &s[a..b], "the text between two positions");
        }
    }
    zsym::out_str(&s);
}
