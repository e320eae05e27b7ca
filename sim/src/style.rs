//! How templates are written: whitespace that is removed by markers, and other delimiters.

use crate::rng::Rng;

/// What happens to the whitespace at a tag
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ws {
    Preserve,
    Suppress,
    Minimize,
}

#[derive(Clone, Copy, Debug)]
pub struct Style {
    /// Whether whitespace and markers are added
    pub markers: bool,
    /// What happens without a marker
    pub default: Ws,
    /// Whether the delimiters of the syntax "other" are used
    pub other: bool,
}

pub const PLAIN: Style = Style { markers: false, default: Ws::Preserve, other: false };

/// The delimiters of blocks, expressions and comments
const DEFAULT: [(&str, &str); 3] = [("{%", "%}"), ("{{", "}}"), ("{#", "#}")];
const OTHER: [(&str, &str); 3] = [("<[", "]>"), ("$((", "))$"), ("/**", "**/")];

enum Part<'a> {
    Text(&'a str),
    /// Delimiters, and what is between them
    Tag(usize, &'a str),
}

fn parts(source: &str) -> Vec<Part<'_>> {
    let mut out = vec![];
    let mut rest = source;
    let mut raw = false;
    loop {
        let start = match raw {
            true => rest.find("{% endraw %}").map(|at| (at, 0)),
            false => (0..3).filter_map(|i| rest.find(DEFAULT[i].0).map(|at| (at, i))).min(),
        };
        let Some((at, i)) = start else {
            out.push(Part::Text(rest));
            return out;
        };
        out.push(Part::Text(&rest[..at]));
        let tag = &rest[at + 2..];
        let end = tag.find(DEFAULT[i].1).expect("an unclosed tag");
        raw = &tag[..end] == " raw ";
        out.push(Part::Tag(i, &tag[..end]));
        rest = &tag[end + 2..];
    }
}

fn is_ws(c: char) -> bool {
    matches!(c, ' ' | '\n' | '\t' | '\r')
}

/// The template renders the same if it is written like this
pub fn restyle(source: &str, style: Style, seed: u64) -> String {
    let mut rng = Rng::new(seed);
    let parts = parts(source);
    let tags = parts.len() / 2;
    // The markers at the start and the end of each tag
    let mut markers: Vec<(Option<Ws>, Option<Ws>)> = vec![(None, None); tags];
    let mut texts: Vec<String> = Vec::new();
    let any = [Ws::Preserve, Ws::Suppress, Ws::Minimize];
    const JUNK: &[&str] = &[" ", "  ", "\n", "\n  ", "\t", " \r\n", "\n\n"];
    const SPACE: &[&str] = &[" ", "  ", "\t", "   \t"];
    const BREAK: &[&str] = &["\n", "\n  ", " \n", "\n\n\t"];
    for (i, part) in parts.iter().enumerate().step_by(2) {
        let Part::Text(text) = part else { unreachable!() };
        let (before, after) = (i / 2, i / 2);
        let before = before.checked_sub(1);
        let after = (after < tags).then_some(after);
        let keep = style.default == Ws::Preserve && !style.markers;
        if keep {
            texts.push(text.to_string());
            continue;
        }
        // How the two sides of the text are treated
        let (mut left, mut right) = (Ws::Preserve, Ws::Preserve);
        let (mut new_left, mut new_right) = (String::new(), String::new());
        let core = text.trim_matches(is_ws);
        let (lead, trail) = match core.is_empty() {
            // All of it is at the start of the next tag
            true => ("", *text),
            false => {
                let at = text.find(core).unwrap();
                (&text[..at], &text[at + core.len()..])
            }
        };
        let mut side = |run: &str, neighbor: bool, how: &mut Ws, out: &mut String| {
            out.push_str(run);
            if !style.markers || !neighbor {
                return;
            }
            match run {
                "" if rng.chance(1, 3) => {
                    *how = Ws::Suppress;
                    out.push_str(rng.pick(JUNK));
                }
                " " if rng.chance(1, 2) => {
                    *how = Ws::Minimize;
                    *out = rng.pick(SPACE).to_string();
                }
                "\n" if rng.chance(1, 2) => {
                    *how = Ws::Minimize;
                    *out = rng.pick(BREAK).to_string();
                }
                "" => *how = any[rng.below(3)],
                _ => {}
            }
        };
        if core.is_empty() {
            // Written as one run of whitespace
            side(trail, after.is_some(), &mut right, &mut new_right);
            if text.is_empty() && style.markers {
                left = match new_right.is_empty() || right == Ws::Suppress {
                    true => any[rng.below(3)],
                    false => Ws::Preserve,
                };
                if before.is_some() && right == Ws::Suppress && !new_right.is_empty() && rng.chance(1, 3) {
                    // The other side removes it
                    left = Ws::Suppress;
                    right = any[rng.below(3)];
                }
            }
        } else {
            side(lead, before.is_some(), &mut left, &mut new_left);
            side(trail, after.is_some(), &mut right, &mut new_right);
        }
        if let Some(before) = before {
            markers[before].1 = (left != style.default || style.markers && rng.chance(1, 10)).then_some(left);
        }
        if let Some(after) = after {
            markers[after].0 = (right != style.default || style.markers && rng.chance(1, 10)).then_some(right);
        }
        texts.push(format!("{new_left}{core}{new_right}"));
    }

    let delims = if style.other { OTHER } else { DEFAULT };
    let mut out = String::new();
    let marker = |how: Option<Ws>| match how {
        None => "",
        Some(Ws::Preserve) => "+",
        Some(Ws::Suppress) => "-",
        Some(Ws::Minimize) => "~",
    };
    for (i, part) in parts.iter().enumerate() {
        match part {
            Part::Text(_) => out.push_str(&texts[i / 2]),
            Part::Tag(kind, content) => {
                let (start, end) = match content.starts_with(" extends ") {
                    // There are no markers, and the text around it is not part of the page
                    true => (None, None),
                    false => markers[i / 2],
                };
                out.push_str(delims[*kind].0);
                out.push_str(marker(start));
                out.push_str(content);
                out.push_str(marker(end));
                out.push_str(delims[*kind].1);
            }
        }
    }
    out
}
