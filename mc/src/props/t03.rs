use super::*;
use ppt_rs::generator::*;
use std::collections::BTreeSet;

const NAMES: &[&str] = &["Ann", "Bob", "A & <C>"];
const TEXTS: &[&str] = &["ok", "<b> & \"x\"", ""];

pub fn prop() -> Prop {
    Prop {
        id: "T03",
        level: "model_checking",
        rule: "every history of adding authors and comments (automatic and explicit indices) compared after every step with a reference list, including the markup read back by the oracle parser; states are the reference lists",
        assumptions: STD,
        scenarios: |t| {
            let depth = if t == Tier::Quick { 4 } else { 5 };
            let more = Scenario::new("similar-authors", "all histories of 3 get_or_add over 9 names that differ only in case, spacing, length or form, with equal or different initials", 0, move |ch| {
                const SIM: &[&str] = &["Ann", "ann", "ANN", "Ann ", " Ann", "An", "", "\u{c4}nn", "A\u{308}nn"];
                let mut al = CommentAuthorList::new();
                let mut names: Vec<(&str, u32)> = vec![];
                for _ in 0..3 {
                    let n = *ch.of(SIM);
                    let id = al.get_or_add(n, *ch.of(&["A", "B"]));
                    match names.iter().find(|x| x.0 == n) {
                        Some(x) => ch.check(x.1 == id, "author-again", || format!("{n:?} got id {id}, had {}", x.1)),
                        None => {
                            ch.check(names.iter().all(|x| x.1 != id), "author-shared", || format!("{n:?} got id {id} of {names:?}"));
                            names.push((n, id));
                        }
                    }
                    ch.check(al.get_by_id(id).map(|a| a.name.as_str()) == Some(n), "author-name", || format!("{n:?} is {:?}", al.get_by_id(id)));
                    ch.step();
                }
                ch.check(al.len() == names.len(), "author-count", || format!("{:?} for {names:?}", al.authors()));
                ch.state(hash_str(&format!("{names:?}")));
                ch.nontrivial(hash_str(&format!("{names:?}")));
                Ok(())
            });
            vec![more, Scenario::new("histories", format!("all histories of {depth} operations: get_or_add (3 names x 2 initials), add_comment (3 authors x 3 texts), add explicit index 1..3"), 0, move |ch| {
                let mut al = CommentAuthorList::new();
                let mut sc = SlideComments::new();
                let mut names: Vec<(String, String)> = vec![];
                // (author, text, x, y, explicit index or none)
                let mut cs: Vec<(u32, String, u32, u32, Option<u32>)> = vec![];
                for k in 0..depth {
                    match ch.pick(3) {
                        0 => {
                            let n = *ch.of(NAMES);
                            let i = *ch.of(&["x", "y&"]);
                            let id = al.get_or_add(n, i);
                            let w = match names.iter().position(|a| a.0 == n) {
                                Some(p) => p,
                                None => {
                                    names.push((n.into(), i.into()));
                                    names.len() - 1
                                }
                            };
                            ch.check(al.get_by_id(id).map(|a| a.name.clone()) == Some(n.to_string()), "author-id", || format!("{n} got id {id} of {:?}", al.authors()));
                            ch.check(al.authors().iter().position(|a| a.id == id) == Some(w), "author-order", || format!("{n} got id {id} of {:?}", al.authors()));
                        }
                        1 => {
                            let a = ch.pick(3) as u32;
                            let t = *ch.of(TEXTS);
                            sc.add_comment(a, t, k as u32, 7);
                            cs.push((a, t.into(), k as u32, 7, None));
                        }
                        _ => {
                            let i = 1 + ch.pick(3) as u32;
                            sc.add(Comment::new(1, "e").index(i).position(9, k as u32));
                            cs.push((1, "e".into(), 9, k as u32, Some(i)));
                        }
                    }
                    ch.step();
                }
                let ctx = format!("{names:?} {cs:?}");
                ch.state(hash_str(&ctx));
                // authors
                let got: Vec<(String, String)> = al.authors().iter().map(|a| (a.name.clone(), a.initials.clone())).collect();
                ch.check(got == names && al.len() == names.len(), "authors", || format!("{got:?}, wanted {names:?}"));
                let ids: BTreeSet<u32> = al.authors().iter().map(|a| a.id).collect();
                ch.check(ids.len() == names.len(), "author-ids", || format!("{:?}", al.authors()));
                match crate::xml::parse(al.to_xml().as_bytes()) {
                    Err(e) => ch.report(Fail { sig: "authors-malformed".into(), msg: e }),
                    Ok(e) => {
                        let x: Vec<(String, String, String)> = e.all("cmAuthor").iter().map(|a| (a.attr("id").unwrap_or("").into(), a.attr("name").unwrap_or("").into(), a.attr("initials").unwrap_or("").into())).collect();
                        let w: Vec<(String, String, String)> = al.authors().iter().map(|a| (a.id.to_string(), a.name.clone(), a.initials.clone())).collect();
                        ch.check(x == w, "authors-xml", || format!("{x:?}, wanted {w:?}"));
                    }
                }
                // comments
                let got: Vec<(u32, String, u32, u32)> = sc.comments().iter().map(|c| (c.author_id, c.text.clone(), c.x, c.y)).collect();
                let want: Vec<(u32, String, u32, u32)> = cs.iter().map(|c| (c.0, c.1.clone(), c.2, c.3)).collect();
                ch.check(got == want && sc.len() == cs.len(), "comments", || format!("{got:?}, wanted {want:?}"));
                for (i, (c, w)) in sc.comments().iter().zip(&cs).enumerate() {
                    match w.4 {
                        Some(x) => ch.check(c.index == x, "explicit-index", || format!("{ctx}: comment {i} has index {}", c.index)),
                        None => {
                            let clash = sc.comments()[..i].iter().any(|d| d.author_id == c.author_id && d.index == c.index);
                            ch.check(!clash, "index-reused", || format!("{ctx}: comment {i} reuses index {}", c.index));
                        }
                    }
                }
                match crate::xml::parse(sc.to_xml().as_bytes()) {
                    Err(e) => ch.report(Fail { sig: "comments-malformed".into(), msg: e }),
                    Ok(e) => {
                        let a = |e: &crate::xml::Elem, k: &str| e.attr(k).unwrap_or("").to_string();
                        let x: Vec<[String; 5]> = e
                            .all("cm")
                            .iter()
                            .map(|c| {
                                let p = c.child("pos");
                                [a(c, "authorId"), c.child("text").map(|t| t.text()).unwrap_or_default(), p.map(|p| a(p, "x")).unwrap_or_default(), p.map(|p| a(p, "y")).unwrap_or_default(), a(c, "idx")]
                            })
                            .collect();
                        let w: Vec<[String; 5]> = sc.comments().iter().map(|c| [c.author_id.to_string(), c.text.clone(), c.x.to_string(), c.y.to_string(), c.index.to_string()]).collect();
                        ch.check(x == w, "comments-xml", || format!("{x:?}, wanted {w:?}"));
                    }
                }
                ch.note(|| ctx.clone());
                ch.nontrivial(hash_str(&ctx));
                Ok(())
            })]
        },
        must_cover: || vec![],
    }
}
