//! M02: a Mermaid diagram becomes the shapes and connectors its source declares.
use super::*;
use crate::decks::*;
use ppt_rs::generator::connectors::ArrowType;
use ppt_rs::generator::*;
use std::collections::HashMap;

/// What a line of a diagram declares.
#[derive(Clone, Debug)]
enum E {
    /// A node: its id, and its label where the line gives one.
    N(&'static str, Option<&'static str>),
    /// A link, with its label ("" for none).
    L(&'static str, &'static str, &'static str),
    /// A text that belongs to no node, in the order of the source.
    T(&'static str),
    /// A text that belongs to a node.
    M(&'static str, &'static str),
    /// A group opens (its title) and closes.
    Open(&'static str),
    Close,
}
use E::*;
type Line = (&'static str, &'static [E]);
/// What a diagram is to show.
#[derive(Default, Debug)]
struct Ref {
    nodes: Vec<(&'static str, String, Option<usize>)>,
    links: Vec<(&'static str, &'static str, &'static str)>,
    texts: Vec<&'static str>,
    members: Vec<(&'static str, &'static str)>,
    groups: Vec<&'static str>,
    open: Vec<usize>,
}
impl Ref {
    fn node(&mut self, id: &'static str, label: Option<&str>) {
        let g = self.open.last().copied();
        match self.nodes.iter_mut().find(|n| n.0 == id) {
            Some(n) => {
                if let Some(l) = label {
                    n.1 = l.into();
                }
                if n.2.is_none() {
                    n.2 = g;
                }
            }
            None => self.nodes.push((id, label.unwrap_or(id).into(), g)),
        }
    }
    fn line(&mut self, effects: &'static [E]) {
        for e in effects {
            match e.clone() {
                N(id, l) => self.node(id, l),
                L(a, b, l) => {
                    self.node(a, None);
                    self.node(b, None);
                    self.links.push((a, b, l));
                }
                T(t) => self.texts.push(t),
                M(id, t) => {
                    self.node(id, None);
                    self.members.push((id, t));
                }
                Open(t) => {
                    self.open.push(self.groups.len());
                    self.groups.push(t);
                }
                Close => {
                    self.open.pop();
                }
            }
        }
    }
    fn name(&self, id: &str) -> &str {
        &self.nodes.iter().find(|n| n.0 == id).unwrap().1
    }
}
fn no(sig: &str, msg: String) -> Fail {
    Fail { sig: sig.into(), msg }
}
/// The slide a diagram is drawn on.
fn draw(ch: &mut Ch, src: &str) -> Result<SlideContent, Fail> {
    let md = format!("# Seen\n\n```mermaid\n{src}\n```\n");
    let once = || guarded(|| ppt_rs::cli::parse_markdown(&md)).map_err(panic_fail);
    ch.step();
    let slides = once()?.map_err(|e| no("refused", format!("{src:?}: {e}")))?;
    let again = once()?.map_err(|e| no("refused", format!("{src:?}: {e}")))?;
    ch.check(format!("{slides:?}") == format!("{again:?}"), "again", || format!("{src:?}: drawn differently the second time"));
    ch.check(slides.len() == 1, "slides", || format!("{src:?}: {} slides", slides.len()));
    slides.into_iter().next().ok_or_else(|| no("slides", format!("{src:?}: no slide")))
}
fn text(s: &Shape) -> Option<&str> {
    s.text.as_deref().filter(|t| !t.is_empty())
}
fn within(s: &Shape, o: &Shape) -> bool {
    let end = |a: u32, b: u32| a as u64 + b as u64;
    s.x >= o.x && s.y >= o.y && end(s.x, s.width) <= end(o.x, o.width) && end(s.y, s.height) <= end(o.y, o.height)
}
fn apart(s: &Shape, o: &Shape) -> bool {
    let end = |a: u32, b: u32| a as u64 + b as u64;
    end(s.x, s.width) <= o.x as u64 || end(o.x, o.width) <= s.x as u64 || end(s.y, s.height) <= o.y as u64 || end(o.y, o.height) <= s.y as u64
}
/// Nodes, links and their labels, for the kinds drawn with connectors.
fn graph(ch: &mut Ch, src: &str, want: &Ref) -> Res {
    let slide = draw(ch, src)?;
    let mut named: HashMap<u32, &str> = HashMap::new();
    let mut boxes: Vec<(&str, &Shape)> = vec![];
    let mut ids = std::collections::HashSet::new();
    for s in &slide.shapes {
        if let Some(id) = s.id {
            ch.check(ids.insert(id), "shape-id", || format!("{src:?}: two shapes have the id {id}"));
            named.insert(id, text(s).unwrap_or(""));
        }
    }
    // texts: each node once, each label as often as it is given, each group title
    let mut expected: Vec<String> = want.nodes.iter().map(|n| n.1.clone()).collect();
    expected.extend(want.links.iter().map(|l| l.2.to_string()).filter(|l| !l.is_empty()));
    expected.extend(want.groups.iter().map(|g| g.to_string()));
    let mut per: Vec<(&str, Vec<&str>)> = vec![];
    for (id, t) in &want.members {
        match per.iter_mut().find(|p| p.0 == *id) {
            Some(p) => p.1.push(t),
            None => per.push((id, vec![t])),
        }
    }
    let is_member = |t: &str| want.members.iter().any(|m| t.lines().any(|l| l == m.1));
    let mut shown: Vec<String> = slide.shapes.iter().filter_map(text).filter(|t| !is_member(t)).map(str::to_string).collect();
    expected.sort();
    shown.sort();
    ch.outcome(hash_str(&format!("{shown:?} {}", slide.connectors.len())));
    ch.check(shown == expected, "texts", || format!("{src:?}: shows {shown:?} instead of {expected:?}"));
    for s in &slide.shapes {
        if let Some(t) = text(s) {
            if want.nodes.iter().any(|n| n.1 == t) {
                boxes.push((t, s));
            }
        }
    }
    // nodes stand in the order of the source, apart from each other
    if want.groups.is_empty() {
        let order: Vec<&str> = boxes.iter().map(|b| b.0).collect();
        let by: Vec<&str> = want.nodes.iter().map(|n| n.1.as_str()).collect();
        ch.check(order == by, "order", || format!("{src:?}: nodes {order:?} instead of {by:?}"));
    }
    for (i, a) in boxes.iter().enumerate() {
        for b in &boxes[..i] {
            ch.check(apart(a.1, b.1), "overlap", || format!("{src:?}: {:?} and {:?} overlap", a.0, b.0));
        }
    }
    // members stand in a box of their class, each once and in order
    for (id, list) in &per {
        let head = boxes.iter().find(|b| b.0 == want.name(id)).unwrap().1;
        let mut rest: Vec<&str> = vec![];
        for s in slide.shapes.iter().filter(|s| s.x == head.x && s.width == head.width && s.y > head.y) {
            if boxes.iter().any(|b| b.1.x == head.x && b.1.y > head.y && b.1.y <= s.y) {
                continue;
            }
            rest.extend(text(s).into_iter().flat_map(str::lines));
        }
        let (calls, plain): (Vec<&str>, Vec<&str>) = list.iter().partition(|m| m.contains('('));
        let all: Vec<&str> = plain.into_iter().chain(calls).collect();
        ch.check(rest == all, "members", || format!("{src:?}: {id} has {rest:?} instead of {all:?}"));
    }
    // links, in order, between the shapes of their nodes
    let links: Vec<(String, String)> = slide
        .connectors
        .iter()
        .map(|c| {
            let at = |id: Option<u32>| id.and_then(|i| named.get(&i)).map_or("nothing".to_string(), |t| t.to_string());
            (at(c.start_shape_id), at(c.end_shape_id))
        })
        .collect();
    let wanted: Vec<(String, String)> = want.links.iter().map(|l| (want.name(l.0).into(), want.name(l.1).into())).collect();
    ch.check(links == wanted, "links", || format!("{src:?}: links {links:?} instead of {wanted:?}"));
    // a node of a group stands inside it
    let grounds: Vec<&Shape> = slide.shapes.iter().filter(|s| text(s).is_none()).collect();
    for n in &want.nodes {
        let Some(g) = n.2 else { continue };
        let title = want.groups[g];
        if want.groups.iter().filter(|t| **t == title).count() > 1 {
            continue;
        }
        let node = boxes.iter().find(|b| b.0 == n.1).unwrap().1;
        let ok = slide.shapes.iter().any(|t| text(t) == Some(title) && grounds.iter().any(|g| within(t, g) && within(node, g)));
        ch.check(ok, "group", || format!("{src:?}: {} is not in {title:?}", n.1));
    }
    ch.state(hash_str(&format!("{want:?}")));
    ch.nontrivial(hash_str(src));
    Ok(())
}
fn lines(ch: &mut Ch, head: &'static [&'static str], alphabet: &'static [Line], n: usize) -> Res {
    let head = *ch.of(head);
    let mut r = Ref::default();
    let mut src = head.to_string();
    for _ in 0..n {
        let l = &alphabet[ch.pick(alphabet.len())];
        src += &format!("\n    {}", l.0.replace('\n', "\n    "));
        r.line(l.1);
    }
    ch.note(|| src.clone());
    graph(ch, &src, &r)
}
const FLOW: &[Line] = &[
    ("A --> B", &[L("A", "B", "")]),
    ("A[Start]", &[N("A", Some("Start"))]),
    ("subgraph one [Group 1]", &[Open("Group 1")]),
    ("end", &[Close]),
    ("A --> B --> C", &[L("A", "B", ""), L("B", "C", "")]),
    ("B{Ask?} ==> C((End))", &[N("B", Some("Ask?")), N("C", Some("End")), L("B", "C", "")]),
    ("A -->|yes| B", &[L("A", "B", "yes")]),
    ("A -- no --> C", &[L("A", "C", "no")]),
    ("C -.-> A;", &[L("C", "A", "")]),
    ("A & B --> D", &[N("A", None), N("B", None), L("A", "D", ""), L("B", "D", "")]),
    ("D[\"x --> y (z)\"] --- B", &[N("D", Some("x --> y (z)")), L("D", "B", "")]),
    ("subgraph Two", &[Open("Two")]),
    ("%% A --> Z", &[]),
    ("style A fill:#f9f", &[]),
    ("A-->B; B-->C", &[L("A", "B", ""), L("B", "C", "")]),
    ("a-node([Stadium]):::big --> E{{Hex}}", &[N("a-node", Some("Stadium")), N("E", Some("Hex")), L("a-node", "E", "")]),
    ("B <--> D", &[L("B", "D", "")]),
    ("A ==>|two words| E", &[L("A", "E", "two words")]),
    ("É[Été]-->B", &[N("É", Some("Été")), L("É", "B", "")]),
    ("direction LR", &[]),
    ("B -. maybe .-> C", &[L("B", "C", "maybe")]),
    ("A --> A", &[L("A", "A", "")]),
];
const CLASS: &[Line] = &[
    ("class A", &[N("A", None)]),
    ("A <|-- B", &[L("A", "B", "")]),
    ("class A {\n  +name: String\n  +eat()\n}", &[M("A", "+name: String"), M("A", "+eat()")]),
    ("class B {\n}", &[N("B", None)]),
    ("class Store {\n  -items\n  +total(a--b) int\n}", &[M("Store", "-items"), M("Store", "+total(a--b) int")]),
    ("A --> Store : fills", &[L("A", "Store", "fills")]),
    ("A \"1\" *-- \"many\" C : has", &[L("A", "C", "has")]),
    ("B : +int age", &[M("B", "+int age")]),
    ("B ..|> C", &[L("B", "C", "")]),
    ("A o-- B", &[L("A", "B", "")]),
    ("%% A <|-- Z", &[]),
    ("B -- Store: near", &[L("B", "Store", "near")]),
    ("class Two[\"A label\"]", &[N("Two", Some("A label"))]),
    ("C<..A", &[L("C", "A", "")]),
    ("A <|--|> C", &[L("A", "C", "")]),
    ("class B{}", &[N("B", None)]),
];
const STATE: &[Line] = &[
    ("[*] --> A", &[N("[*]s", Some("Start")), L("[*]s", "A", "")]),
    ("A --> B", &[L("A", "B", "")]),
    ("A --> [*]", &[N("A", None), N("[*]e", Some("End")), L("A", "[*]e", "")]),
    ("B --> A : go --> on", &[L("B", "A", "go --> on")]),
    ("Idle", &[N("Idle", None)]),
    ("state \"Long name\" as C", &[N("C", Some("Long name"))]),
    ("A : described", &[N("A", Some("described"))]),
    ("B --> C: x", &[L("B", "C", "x")]),
    ("%% A --> Z", &[]),
    ("state D {", &[N("D", None)]),
    ("}", &[]),
    ("A-->D", &[L("A", "D", "")]),
    ("direction LR", &[]),
    ("note right of A : a note --> b", &[]),
    ("note left of B\n  A --> Z\nend note", &[]),
    ("A --> A : again", &[L("A", "A", "again")]),
];
const ER: &[Line] = &[
    ("CUSTOMER ||--o{ ORDER : places", &[L("CUSTOMER", "ORDER", "places")]),
    ("CUSTOMER {\n  string name\n  int age PK \"the || key\"\n}", &[M("CUSTOMER", "string name"), M("CUSTOMER", "int age PK \"the || key\"")]),
    ("store }|..|{ tool : \"sells to\"", &[L("store", "tool", "sells to")]),
    ("ORDER {\n  int id\n}", &[M("ORDER", "int id")]),
    ("store", &[N("store", None)]),
    ("ORDER ||--|| store : o", &[L("ORDER", "store", "o")]),
    ("\"LINE ITEM\" {\n}", &[N("LINE ITEM", None)]),
    ("ORDER |o--o| \"LINE ITEM\" : \"\"", &[L("ORDER", "LINE ITEM", "")]),
    ("p[Person]", &[N("p", Some("Person"))]),
    ("p }o--|| CUSTOMER : is", &[L("p", "CUSTOMER", "is")]),
    ("%% A ||--|| Z : x", &[]),
    ("DELIVERY-ADDRESS ||--o{ store : to", &[L("DELIVERY-ADDRESS", "store", "to")]),
];
/// Texts shown in the order of the source, for the kinds drawn without connectors.
fn listed(ch: &mut Ch, head: &str, alphabet: &'static [Line], n: usize) -> Res {
    let mut src = head.to_string();
    let mut want: Vec<&str> = vec![];
    let mut title = None;
    for _ in 0..n {
        let l = &alphabet[ch.pick(alphabet.len())];
        src += &format!("\n    {}", l.0.replace('\n', "\n    "));
        for e in l.1 {
            match e {
                T(t) => want.push(t),
                Open(t) => title = Some(*t),
                _ => {}
            }
        }
    }
    ch.note(|| src.clone());
    let slide = draw(ch, &src)?;
    let mut shown: Vec<&str> = slide.shapes.iter().filter_map(text).flat_map(str::lines).collect();
    let is_title = |t: &&str| Some(*t) == title;
    let titles = shown.iter().filter(|t| is_title(t)).count();
    ch.check(titles == title.is_some() as usize, "title", || format!("{src:?}: the title is shown {titles} times"));
    shown.retain(|t| !is_title(t));
    ch.outcome(hash_str(&format!("{shown:?}")));
    ch.state(hash_str(&format!("{want:?}")));
    // a diagram that declares nothing may say so in words of its own
    if want.is_empty() {
        return Ok(());
    }
    // section names come before or among what they hold
    let (mut a, mut b) = (shown.clone(), want.clone());
    a.sort();
    b.sort();
    ch.check(a == b, "texts", || format!("{src:?}: shows {shown:?} instead of {want:?}"));
    let in_order = |l: &[&str]| l.iter().filter(|t| !t.starts_with("Part")).map(|t| t.to_string()).collect::<Vec<_>>();
    ch.check(in_order(&shown) == in_order(&want), "order", || format!("{src:?}: shows {shown:?} instead of {want:?}"));
    ch.nontrivial(hash_str(&src));
    Ok(())
}
const GANTT: &[Line] = &[
    ("title Plan: one", &[Open("Plan: one")]),
    ("section Part A", &[T("Part A")]),
    ("First task :a1, 2024-01-01, 30d", &[T("First task")]),
    ("titles and sections : 3d", &[T("titles and sections")]),
    ("section Part B", &[T("Part B")]),
    ("Other :crit, after a1, 2d", &[T("Other")]),
    ("dateFormat YYYY-MM-DD HH:mm", &[]),
    ("%% Gone : 3d", &[]),
];
const JOURNEY: &[Line] = &[
    ("title My day", &[Open("My day")]),
    ("section Part A", &[T("Part A")]),
    ("Make tea: 5: Me", &[T("Make tea (5)")]),
    ("Do work: 1: Me, Cat", &[T("Do work (1)")]),
    ("section Part B", &[T("Part B")]),
    ("sections of it: 3", &[T("sections of it (3)")]),
    ("%% Gone: 3: Me", &[]),
];
const TIMELINE: &[Line] = &[
    ("title History", &[Open("History")]),
    ("2002 : LinkedIn", &[T("2002"), T("LinkedIn")]),
    ("2004 : Facebook\n  : Google", &[T("2004"), T("Facebook"), T("Google")]),
    ("section Part A", &[T("Part A")]),
    ("title-page : printed", &[T("title-page"), T("printed")]),
    ("section Part B", &[T("Part B")]),
    ("%% 1 : 2", &[]),
];
/// Messages between participants: who is where, and what is said from whom to whom.
fn sequence(ch: &mut Ch, n: usize) -> Res {
    // a line, and the participants it names in order, and the message
    type Msg = Option<(&'static str, &'static str, &'static str)>;
    const LINES: &[(&str, &[(&str, &str)], Msg)] = &[
        ("A->>B: hello", &[("A", ""), ("B", "")], Some(("A", "B", "hello"))),
        ("participant C as Carol", &[("C", "Carol")], None),
        ("B-->>A: see --> this ->> that", &[("B", ""), ("A", "")], Some(("B", "A", "see --> this ->> that"))),
        ("actor B", &[("B", "B")], None),
        ("C->>+A: 10:30", &[("C", ""), ("A", "")], Some(("C", "A", "10:30"))),
        ("participants->>-B: x", &[("participants", ""), ("B", "")], Some(("participants", "B", "x"))),
        ("A-xC: lost", &[("A", ""), ("C", "")], Some(("A", "C", "lost"))),
        ("%% A->>Z: no", &[], None),
        ("B->A: line", &[("B", ""), ("A", "")], Some(("B", "A", "line"))),
        ("Note over A,B: think ->> more", &[("A", ""), ("B", "")], Some(("", "", "think ->> more"))),
        ("loop Every day\nA-)B: async\nend", &[("A", ""), ("B", "")], Some(("A", "B", "async"))),
        ("A->>A: self", &[("A", "")], Some(("A", "A", "self"))),
    ];
    let mut src = String::from("sequenceDiagram");
    let mut who: Vec<(&str, String)> = vec![];
    let mut said: Vec<(&str, &str, &str)> = vec![];
    for _ in 0..n {
        let l = &LINES[ch.pick(LINES.len())];
        src += &format!("\n    {}", l.0.replace('\n', "\n    "));
        for (id, name) in l.1 {
            // the first mention settles the name
            if !who.iter().any(|w| w.0 == *id) {
                who.push((id, if name.is_empty() { id } else { name }.to_string()));
            } else if !name.is_empty() && *name != *id {
                // a participant introduced after it has spoken: not settled here
                return Ok(());
            }
        }
        said.extend(l.2);
    }
    ch.note(|| src.clone());
    let slide = draw(ch, &src)?;
    ch.outcome(hash_str(&format!("{who:?}{said:?}")));
    // participants from left to right; each has a box above (and may have one below)
    let mut places: Vec<(&str, &Shape)> = vec![];
    for (id, name) in &who {
        let mut boxes: Vec<&Shape> = slide.shapes.iter().filter(|s| text(s) == Some(name)).collect();
        boxes.sort_by_key(|s| s.y);
        ch.check(!boxes.is_empty() && boxes.len() <= 2 && boxes.iter().all(|b| b.x == boxes[0].x), "participant", || format!("{src:?}: {name} has {} boxes", boxes.len()));
        if let Some(b) = boxes.first() {
            places.push((id, b));
        }
    }
    ch.check(places.windows(2).all(|w| w[0].1.x < w[1].1.x), "order", || format!("{src:?}: participants not in the order of the source"));
    let texts: Vec<&Shape> = slide.shapes.iter().filter(|s| text(s).is_some_and(|t| !who.iter().any(|w| w.1 == t))).collect();
    let shown: Vec<&str> = texts.iter().filter_map(|s| text(s)).collect();
    let want: Vec<&str> = said.iter().map(|m| m.2).collect();
    ch.check(shown == want, "messages", || format!("{src:?}: messages {shown:?} instead of {want:?}"));
    if shown != want || places.len() != who.len() {
        return Ok(());
    }
    ch.check(texts.windows(2).all(|w| w[0].y < w[1].y), "message-order", || format!("{src:?}: messages not below each other"));
    // each message has an arrow from its sender to its receiver
    let middle = |id: &str| {
        let s = places.iter().find(|p| p.0 == id).unwrap().1;
        s.x + s.width / 2
    };
    let arrows: Vec<&Shape> = slide.shapes.iter().filter(|s| matches!(s.shape_type, ShapeType::LeftArrow | ShapeType::RightArrow)).collect();
    let sent: Vec<_> = said.iter().filter(|m| !m.0.is_empty()).collect();
    ch.check(arrows.len() == sent.len(), "arrows", || format!("{src:?}: {} arrows for {} messages", arrows.len(), sent.len()));
    for (m, a) in sent.iter().zip(&arrows) {
        let (from, to) = (middle(m.0), middle(m.1));
        let span = a.x == from.min(to) && a.width == from.abs_diff(to);
        let way = from == to || matches!(a.shape_type, ShapeType::RightArrow) == (from < to);
        ch.check(span && way, "arrow", || format!("{src:?}: the arrow of {:?} does not lead from {} to {}", m.2, m.0, m.1));
    }
    ch.nontrivial(hash_str(&src));
    Ok(())
}
fn pie(ch: &mut Ch, n: usize) -> Res {
    const LINES: &[(&str, Option<(&str, f64)>)] = &[
        ("\"Dogs\" : 45", Some(("Dogs", 45.0))),
        ("\"Cats\" : 0.5", Some(("Cats", 0.5))),
        ("\"a: b\" : 30", Some(("a: b", 30.0))),
        ("\"titles\" : 1e3", Some(("titles", 1000.0))),
        ("%% \"No\" : 3", None),
        ("\"None\" : 0", Some(("None", 0.0))),
        ("\"Bad\" : NaN", None),
        ("\"Odd\" : 1x", None),
    ];
    let (head, title) = *ch.of(&[("pie", ""), ("pie title Pets", "Pets"), ("pie showData\n    title Pets: all", "Pets: all"), ("pie showData title P", "P")]);
    let mut src = head.to_string();
    let mut want = vec![];
    for _ in 0..n {
        let l = &LINES[ch.pick(LINES.len())];
        src += &format!("\n    {}", l.0);
        want.extend(l.1);
    }
    ch.note(|| src.clone());
    let slide = draw(ch, &src)?;
    let mut shown: Vec<&str> = slide.shapes.iter().filter_map(text).collect();
    ch.outcome(hash_str(&format!("{shown:?}")));
    if !title.is_empty() {
        ch.check(shown.iter().filter(|t| **t == title).count() == 1, "title", || format!("{src:?}: no title"));
        shown.retain(|t| *t != title);
    }
    let total: f64 = want.iter().map(|w| w.1).sum();
    let expected: Vec<String> = want.iter().map(|(l, v)| format!("{l} ({:.1}%)", if total > 0.0 { v / total * 100.0 } else { 0.0 })).collect();
    ch.check(shown == expected, "texts", || format!("{src:?}: shows {shown:?} instead of {expected:?}"));
    ch.nontrivial(hash_str(&src));
    Ok(())
}
fn mindmap(ch: &mut Ch, n: usize) -> Res {
    const TEXTS: &[(&str, &str)] = &[("plain", "plain"), ("id((round))", "round"), ("x[square one]", "square one"), ("(soft)", "soft"), ("two words", "two words"), ("y{{hex}}", "hex")];
    let step = *ch.of(&[4, 2, 1]);
    let comment = ch.flag();
    let mut src = String::from("mindmap");
    let mut level = 1usize;
    let mut want = vec![];
    for i in 0..n {
        if i == 1 {
            level = 2;
        } else if i > 1 {
            level = 2 + ch.pick((level).min(3));
        }
        let (t, w) = TEXTS[i % TEXTS.len()];
        src += &format!("\n{}{t}", " ".repeat(step * level));
        if comment {
            src += "\n      ::icon(fa fa-book)\n%% nothing";
        }
        want.push((w, level));
    }
    ch.note(|| src.clone());
    let slide = draw(ch, &src)?;
    let shown: Vec<&str> = slide.shapes.iter().filter_map(text).collect();
    ch.outcome(hash_str(&format!("{want:?}")));
    let (mut a, mut b): (Vec<&str>, Vec<&str>) = (shown.clone(), want.iter().map(|w| w.0).collect());
    a.sort();
    b.sort();
    ch.check(a == b, "texts", || format!("{src:?}: shows {shown:?}"));
    let places: std::collections::HashSet<(u32, u32)> = slide.shapes.iter().filter(|s| text(s).is_some()).map(|s| (s.x, s.y)).collect();
    ch.check(places.len() == shown.len(), "overlap", || format!("{src:?}: nodes stand on each other"));
    ch.nontrivial(hash_str(&src));
    Ok(())
}
fn gitgraph(ch: &mut Ch, n: usize) -> Res {
    const LINES: &[&str] = &[
        "commit id: \"Initial\"",
        "commit",
        "branch feature",
        "checkout main",
        "commit id:\"x id: y\" tag: \"v1\"",
        "checkout feature",
        "merge feature",
        "branch branches order: 2",
        "%% commit id: \"No\"",
        "commit tag: \"id: t\"",
    ];
    let mut src = String::from("gitGraph");
    let (mut branches, mut on) = (vec!["main"], "main");
    let mut commits: Vec<(String, &str)> = vec![];
    for _ in 0..n {
        let i = ch.pick(LINES.len());
        src += &format!("\n    {}", LINES[i]);
        let mut go = |b: &'static str, new: bool| {
            if new == branches.contains(&b) {
                return false;
            }
            if new {
                branches.push(b);
            }
            on = b;
            true
        };
        match i {
            0 => commits.push(("Initial".into(), on)),
            1 | 9 => commits.push((format!("C{}", commits.len()), on)),
            4 => commits.push(("x id: y".into(), on)),
            // what the source says is settled only where Mermaid accepts it
            2 if !go("feature", true) => return Ok(()),
            3 if !go("main", false) => return Ok(()),
            5 if !go("feature", false) => return Ok(()),
            7 if !go("branches", true) => return Ok(()),
            6 => {
                if !branches.contains(&"feature") || on == "feature" {
                    return Ok(());
                }
                commits.push(("Merge feature".into(), on));
            }
            _ => {}
        }
    }
    ch.note(|| src.clone());
    let slide = draw(ch, &src)?;
    let rows: Vec<(&str, &Shape)> = branches.iter().filter_map(|b| slide.shapes.iter().find(|s| text(s) == Some(b)).map(|s| (*b, s))).collect();
    ch.check(rows.len() == branches.len() && rows.windows(2).all(|w| w[0].1.y < w[1].1.y), "branches", || format!("{src:?}: branches {:?} instead of {branches:?}", rows.iter().map(|r| r.0).collect::<Vec<_>>()));
    let labels: Vec<&Shape> = slide.shapes.iter().filter(|s| text(s).is_some_and(|t| !branches.contains(&t))).collect();
    let shown: Vec<&str> = labels.iter().filter_map(|s| text(s)).collect();
    ch.outcome(hash_str(&format!("{commits:?}{branches:?}")));
    if commits.is_empty() {
        return Ok(());
    }
    ch.check(shown.iter().eq(commits.iter().map(|c| &c.0)), "commits", || format!("{src:?}: commits {shown:?} instead of {commits:?}"));
    let dots: Vec<&Shape> = slide.shapes.iter().filter(|s| matches!(s.shape_type, ShapeType::Circle | ShapeType::Ellipse)).collect();
    ch.check(dots.len() == commits.len() && dots.windows(2).all(|w| w[0].x < w[1].x), "dots", || format!("{src:?}: {} dots for {} commits", dots.len(), commits.len()));
    for (d, c) in dots.iter().zip(&commits) {
        let y = d.y + d.height / 2;
        let nearest = rows.iter().min_by_key(|r| (r.1.y + r.1.height / 2).abs_diff(y)).map(|r| r.0);
        ch.check(nearest == Some(c.1), "branch", || format!("{src:?}: {} stands on {nearest:?} instead of {}", c.0, c.1));
    }
    ch.nontrivial(hash_str(&src));
    Ok(())
}
fn quadrant(ch: &mut Ch, n: usize) -> Res {
    const LINES: &[(&str, &[&str], Option<(&str, f64, f64)>)] = &[
        ("Point A: [0.3, 0.8]", &[], Some(("Point A", 0.3, 0.8))),
        ("x-axis Low Reach --> High Reach", &["Low Reach", "High Reach"], None),
        ("quadrant-1 Expand", &["Expand"], None),
        ("title Campaigns", &["Campaigns"], None),
        ("B [x]: [0.9, 0.1]", &[], Some(("B [x]", 0.9, 0.1))),
        ("y-axis Little --> Much", &["Little", "Much"], None),
        ("quadrant-3 Drop", &["Drop"], None),
        ("titles: [0.2, 0.2]", &[], Some(("titles", 0.2, 0.2))),
        ("Far: [7e9, -7e9]", &[], Some(("Far", 1.0, 0.0))),
        ("%% Gone: [0.1, 0.1]", &[], None),
    ];
    let mut src = String::from("quadrantChart");
    let mut want: Vec<&str> = vec![];
    let mut points = vec![];
    for _ in 0..n {
        let l = &LINES[ch.pick(LINES.len())];
        src += &format!("\n    {}", l.0);
        for t in l.1 {
            if !want.contains(t) {
                want.push(t);
            }
        }
        points.extend(l.2);
    }
    ch.note(|| src.clone());
    let slide = draw(ch, &src)?;
    let mut shown: Vec<&str> = slide.shapes.iter().filter_map(text).collect();
    ch.outcome(hash_str(&format!("{shown:?}")));
    if points.is_empty() {
        // a placeholder may be shown as well
        shown.retain(|t| want.contains(t));
    }
    let mut a = shown.clone();
    let mut b: Vec<&str> = want.iter().copied().chain(points.iter().map(|p| p.0)).collect();
    a.sort();
    b.sort();
    ch.check(a == b, "texts", || format!("{src:?}: shows {a:?} instead of {b:?}"));
    let dots: Vec<&Shape> = slide.shapes.iter().filter(|s| matches!(s.shape_type, ShapeType::Circle | ShapeType::Ellipse)).collect();
    ch.check(dots.len() == points.len(), "points", || format!("{src:?}: {} dots for {} points", dots.len(), points.len()));
    let areas: Vec<&Shape> = slide.shapes.iter().filter(|s| text(s).is_none() && matches!(s.shape_type, ShapeType::Rectangle)).collect();
    let (left, right) = (areas.iter().map(|s| s.x).min().unwrap_or(0), areas.iter().map(|s| s.x + s.width).max().unwrap_or(0));
    let (top, bottom) = (areas.iter().map(|s| s.y).min().unwrap_or(0), areas.iter().map(|s| s.y + s.height).max().unwrap_or(0));
    for (d, p) in dots.iter().zip(&points) {
        let at = |v: u32, size: u32, a: u32, b: u32| ((v + size / 2) as f64 - a as f64) / (b - a).max(1) as f64;
        let (x, y) = (at(d.x, d.width, left, right), 1.0 - at(d.y, d.height, top, bottom));
        ch.check((x - p.1).abs() < 0.05 && (y - p.2).abs() < 0.05, "place", || format!("{src:?}: {} stands at {x:.2}, {y:.2}", p.0));
    }
    ch.nontrivial(hash_str(&src));
    Ok(())
}
/// How a flowchart runs, and how its links look.
fn flow(ch: &mut Ch) -> Res {
    let (word, dx, dy) = *ch.of(&[("LR", 1i64, 0i64), ("RL", -1, 0), ("TD", 0, 1), ("TB", 0, 1), ("BT", 0, -1), ("", 0, 1)]);
    let kind = *ch.of(&["flowchart", "graph"]);
    let semi = ch.flag();
    let n = 2 + ch.pick(4);
    let (link, head) = *ch.of(&[("-->", true), ("---", false), ("==>", true), ("-.->", true), ("---->", true)]);
    let mut src = format!("{kind} {word}{}", if semi { ";" } else { "" });
    for i in 1..n {
        src += &format!("\n  n{} {link} n{i}{}", i - 1, if semi { ";" } else { "" });
    }
    ch.note(|| src.clone());
    let slide = draw(ch, &src)?;
    let at = |i: usize| slide.shapes.iter().find(|s| text(s) == Some(&format!("n{i}"))).map(|s| (s.x as i64, s.y as i64));
    for i in 1..n {
        let (Some(a), Some(b)) = (at(i - 1), at(i)) else {
            ch.check(false, "texts", || format!("{src:?}: n{i} or the node before it is not shown"));
            return Ok(());
        };
        let way = ((b.0 - a.0).signum(), (b.1 - a.1).signum());
        ch.check(way == (dx, dy), "direction", || format!("{src:?}: from n{} to n{i} it runs {way:?}", i - 1));
    }
    ch.check(slide.connectors.len() == n - 1, "links", || format!("{src:?}: {} connectors", slide.connectors.len()));
    for c in &slide.connectors {
        ch.check((c.end_arrow != ArrowType::None) == head, "head", || format!("{src:?}: arrow head {:?}", c.end_arrow));
        // the ends touch the shapes they are attached to, on the side they say
        for (id, x, y) in [(c.start_shape_id, c.start_x, c.start_y), (c.end_shape_id, c.end_x, c.end_y)] {
            let s = slide.shapes.iter().find(|s| s.id.is_some() && s.id == id);
            let on = s.is_some_and(|s| x >= s.x && x <= s.x + s.width && y >= s.y && y <= s.y + s.height);
            ch.check(on, "ends", || format!("{src:?}: a connector ends at {x}, {y}, off its shape"));
        }
    }
    ch.outcome(hash_str(&src));
    ch.nontrivial(hash_str(&src));
    Ok(())
}
/// What comes before the diagram, and several diagrams on a slide: the package still
/// shows each connector between shapes of its own diagram.
fn whole(ch: &mut Ch) -> Res {
    const DIAGRAMS: &[(&str, &[&str])] = &[
        ("flowchart LR\n  A --> B", &["A", "B"]),
        ("stateDiagram-v2\n  S1 --> S2 : go", &["S1", "S2", "go"]),
        ("classDiagram\n  K1 <|-- K2", &["K1", "K2"]),
        ("erDiagram\n  E1 ||--o{ E2 : has", &["E1", "E2", "has"]),
        ("pie\n  \"Dogs\" : 45", &["Dogs (100.0%)"]),
        ("sequenceDiagram\n  P->>Q: hi", &["P", "Q", "hi"]),
        ("graph TD\n  subgraph G\n  X -->|l| Y\n  end", &["G", "X", "Y", "l"]),
    ];
    const BEFORE: &[&str] = &["", "%% remark\n", "%%{init: {'theme': 'dark'}}%%\n", "---\ntitle: T\n---\n", "\n\n", "   "];
    let mut md = String::from("# Seen\n");
    let mut want: Vec<&str> = vec![];
    for _ in 0..2 {
        let d = ch.of(DIAGRAMS);
        md += &format!("\n```mermaid\n{}{}\n```\n", ch.of(BEFORE), d.0);
        want.extend(d.1);
    }
    ch.note(|| md.clone());
    ch.step();
    let slides = guarded(|| ppt_rs::cli::parse_markdown(&md)).map_err(panic_fail)?.map_err(|e| no("refused", e.to_string()))?;
    let bytes = bytes_of(create_pptx_with_content("T", slides), "deck")?;
    let p = pkg_of(&bytes)?;
    ch.report_all(crate::pkg::check(&p).1);
    let mut shown = vec![];
    let mut names: HashMap<String, Vec<String>> = HashMap::new();
    let mut links = vec![];
    for s in p.slides() {
        let doc = p.doc(&s).map_err(|e| no("xml", e))?;
        for e in doc.all("sp") {
            let t = e.deep_text().trim().to_string();
            if let Some(id) = e.all("cNvPr").first().and_then(|c| c.attr("id")) {
                names.entry(id.to_string()).or_default().push(t.clone());
            }
            shown.push(t);
        }
        for c in doc.all("cxnSp") {
            let end = |n: &str| c.all(n).first().and_then(|e| e.attr("id")).unwrap_or("none").to_string();
            links.push((end("stCxn"), end("endCxn")));
        }
    }
    for w in &want {
        let (a, b) = (shown.iter().filter(|t| t == w).count(), want.iter().filter(|t| t == &w).count());
        ch.check(a >= b, "texts", || format!("{md:?}: {w:?} is shown {a} times"));
    }
    let pairs = [("A", "B"), ("S1", "S2"), ("K1", "K2"), ("E1", "E2"), ("X", "Y")];
    for (a, b) in &links {
        let (a, b) = (names.get(a), names.get(b));
        let ok = matches!((a, b), (Some(a), Some(b)) if a.len() == 1 && b.len() == 1 && pairs.contains(&(a[0].as_str(), b[0].as_str())));
        ch.check(ok, "links", || format!("{md:?}: a connector between {a:?} and {b:?}"));
    }
    ch.outcome(hash_str(&format!("{shown:?}")));
    ch.nontrivial(hash_str(&md));
    Ok(())
}
/// Many, long, odd and unfinished lines: something is drawn, and the package is sound.
fn odd(ch: &mut Ch) -> Res {
    const HEADS: &[&str] = &["flowchart LR", "flowchart TD", "sequenceDiagram", "pie", "gantt", "classDiagram", "stateDiagram", "erDiagram", "mindmap", "timeline", "journey", "quadrantChart", "gitGraph", "unheard-of", ""];
    const LINES: &[&str] = &[
        "A --> B", "A -->", "--> B", "A -->| B", "A[", "A]", "A[é\"", "((", "subgraph", "end", "}", "{", "class", "class {", "A {", ":", "::", "A :", ": B", "title", "section", "\"x", "x: [", "x: [NaN, 1e39]", "\"x\" : -1e308", "\"x\" : 1e308", "commit id:", "commit id: \"", "branch", "merge", "é --> ü", "participant", "participant as", "Note over", "note", "- x", "--", "A -- B", "A -. B", "==", "||--", "||--o{", "A ||--o{", "state", "state \"", "A & ", "& A", ";", "A;;B", "<>&\"'", "|", "A -->|\u{1F600}| \u{1F600}", "\u{0}", "x--o", "o--", "\t\tx", "A:::", "A --> B:::", "[*]", "[*] --> [*]", "subgraph [", "subgraph ]", "\u{00a0}x", "%%", "A@{ shape: rect }", "x: 999: y",
    ];
    let head = *ch.of(HEADS);
    let (i, j) = (ch.pick(LINES.len()), ch.pick(LINES.len()));
    let src = format!("{head}\n  {}\n    {}", LINES[i], LINES[j]);
    ch.note(|| src.clone());
    let slide = draw(ch, &src)?;
    ch.outcome(hash_str(&format!("{:?}", slide.shapes.iter().map(|s| &s.text).collect::<Vec<_>>())));
    let mut ids = std::collections::HashSet::new();
    for id in slide.shapes.iter().filter_map(|s| s.id) {
        ch.check(ids.insert(id), "shape-id", || format!("{src:?}: two shapes have the id {id}"));
    }
    for c in &slide.connectors {
        let ok = [c.start_shape_id, c.end_shape_id].iter().all(|e| e.is_some_and(|id| ids.contains(&id)));
        ch.check(ok, "links", || format!("{src:?}: a connector to no shape"));
    }
    ch.nontrivial(hash_str(&src));
    Ok(())
}
fn many(ch: &mut Ch) -> Res {
    type Gen = fn(usize) -> String;
    const KINDS: &[(&str, Gen)] = &[
        ("flowchart TD", |i| format!("n{i} --> m{i}")),
        ("flowchart LR\nsubgraph S", |i| format!("n{i} -->|x| n0")),
        ("flowchart TD", |i| format!("subgraph S{i}\na{i}\nend")),
        ("sequenceDiagram", |i| format!("p{i}->>p0: m")),
        ("sequenceDiagram", |_| "a->>b: m".into()),
        ("pie", |i| format!("\"l{i}\" : 1")),
        ("gantt\nsection s", |i| format!("t{i} : 1d")),
        ("classDiagram", |i| format!("class c{i}")),
        ("classDiagram\nclass c {", |i| format!("m{i}")),
        ("stateDiagram", |i| format!("s{i} --> s0 : x")),
        ("erDiagram", |i| format!("e{i} ||--|| e0 : x")),
        ("erDiagram\ne {", |i| format!("a{i}")),
        ("mindmap\n  r", |i| format!("    a{i}")),
        ("mindmap\n  r\n    a", |i| format!("      a{i}")),
        ("timeline", |i| format!("{i} : x")),
        ("timeline\nd : x", |_| "  : y".into()),
        ("journey", |i| format!("section {i}\nt: 3")),
        ("journey", |i| format!("t{i}: 3")),
        ("gitGraph", |_| "commit".into()),
        ("gitGraph", |i| format!("branch b{i}")),
        ("quadrantChart", |i| format!("p{i}: [0.5, 0.5]")),
    ];
    let k = ch.pick(KINDS.len());
    let n = *ch.of(if ch.tier == Tier::Quick { &[300, 2000][..] } else { &[300, 2000, 12000][..] });
    // comparing every node with every other takes too long for the longest
    let n = if n > 2000 && matches!(k, 0..=3 | 7 | 9 | 10) { 6000 } else { n };
    let (head, line) = KINDS[k];
    let src = std::iter::once(head.to_string()).chain((0..n).map(line)).collect::<Vec<_>>().join("\n");
    ch.note(|| format!("{head:?} with {n} lines such as {:?}", line(1)));
    let md = format!("# Seen\n\n```mermaid\n{src}\n```\n");
    ch.step();
    let slides = guarded(|| ppt_rs::cli::parse_markdown(&md)).map_err(panic_fail)?.map_err(|e| no("refused", e.to_string()))?;
    let shapes = slides.iter().map(|s| s.shapes.len()).sum::<usize>();
    ch.check(shapes > 0, "texts", || format!("{head:?}: nothing is drawn of {n} lines"));
    ch.outcome(shapes as u64);
    let bytes = bytes_of(guarded(|| create_pptx_with_content("T", slides)).map_err(panic_fail)?, "deck")?;
    pkg_of(&bytes)?;
    ch.nontrivial(hash_str(&format!("{k} {n}")));
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "M02",
        level: "model_checking",
        rule: "every diagram of the stated sets of lines through the real converter: the nodes, links, labels, groups, members, messages and points shown equal those a reference gathers line by line",
        assumptions: STD,
        scenarios: |t| {
            let d = |q: usize| if t == Tier::Quick { q } else { q + 1 };
            let of = |n: usize, a: &[Line], what: &str| format!("all {what} of up to {n} of {} lines", a.len());
            macro_rules! graphs {
                ($name:literal, $heads:expr, $a:ident, $n:expr, $what:literal) => {{
                    let n = $n;
                    Scenario::new($name, of(n, $a, $what), 0, move |ch| {
                        let k = 1 + ch.pick(n);
                        lines(ch, $heads, $a, k)
                    })
                }};
            }
            macro_rules! lists {
                ($name:literal, $head:literal, $a:ident, $n:expr, $what:literal) => {{
                    let n = $n;
                    Scenario::new($name, of(n, $a, $what), 0, move |ch| {
                        let k = 1 + ch.pick(n);
                        listed(ch, $head, $a, k)
                    })
                }};
            }
            macro_rules! own {
                ($name:literal, $f:ident, $n:expr, $what:literal) => {{
                    let n = $n;
                    Scenario::new($name, format!("all {} of up to {n} lines", $what), 0, move |ch| {
                        let k = 1 + ch.pick(n);
                        $f(ch, k)
                    })
                }};
            }
            vec![
                Scenario::new("flow", "flowcharts in every direction, with every kind of link", 0, flow),
                Scenario::new("whole", "two diagrams on a slide, with every kind of preamble, in the package", 0, whole),
                graphs!("flowchart", &["flowchart LR"], FLOW, d(4), "flowcharts"),
                graphs!("class", &["classDiagram", "classDiagram-v2"], CLASS, d(4), "class diagrams"),
                graphs!("state", &["stateDiagram", "stateDiagram-v2"], STATE, d(4), "state diagrams"),
                graphs!("er", &["erDiagram"], ER, d(5), "entity diagrams"),
                lists!("gantt", "gantt", GANTT, d(5), "Gantt charts"),
                lists!("journey", "journey", JOURNEY, d(5), "journeys"),
                lists!("timeline", "timeline", TIMELINE, d(5), "timelines"),
                own!("sequence", sequence, d(5), "sequence diagrams"),
                own!("pie", pie, d(5), "pie charts"),
                own!("mindmap", mindmap, d(8), "mind maps"),
                own!("gitgraph", gitgraph, d(6), "Git graphs"),
                own!("quadrant", quadrant, d(5), "quadrant charts"),
                Scenario::new("odd", "all pairs of odd and unfinished lines in every kind of diagram", 0, odd),
                Scenario::new("many", "diagrams of thousands of lines", 0, many),
            ]
        },
        must_cover: || vec![],
    }
}
