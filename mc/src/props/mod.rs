use crate::engine::*;

mod g01;
pub mod v01;
pub mod v02;
pub mod w01;
pub mod x01;
pub mod x02;
pub mod x03;
pub mod g02;
pub mod g03;
pub mod g04;
pub mod g05;
pub mod g07;
pub mod g08;
pub mod g09;
pub mod g10;
pub mod t01;
pub mod t02;
pub mod t03;
pub mod t04;
pub mod t05;
pub mod t06;
pub mod t07;
pub mod t08;
pub mod t09;
pub mod h01;
pub mod h02;
pub mod m01;
pub mod m02;
pub mod o01;
pub mod o02;
pub mod g06;
pub mod a01;
pub mod c01;
pub mod r01;
pub mod e01;
pub mod r02;
pub mod r03;
pub mod r04;

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub scenarios: fn(Tier) -> Vec<Scenario<'static>>,
    pub must_cover: fn() -> Vec<&'static str>,
}

pub fn all() -> Vec<Prop> {
    vec![g01::prop(), g02::prop(), g03::prop(), g05::prop(), g04::prop(), g07::prop(), g08::prop(), g09::prop(), g10::prop(), t01::prop(), t02::prop(), t03::prop(), t04::prop(), t05::prop(), t06::prop(), t07::prop(), t08::prop(), t09::prop(), h01::prop(), h02::prop(), m01::prop(), m02::prop(), o01::prop(), o02::prop(), g06::prop(), a01::prop(), r01::prop(), r02::prop(), r03::prop(), e01::prop(), e01::prop2(), r04::prop(), v01::prop(), v02::prop(), w01::prop(), x01::prop(), x02::prop(), x03::prop(), c01::prop()]
}
pub fn child(args: &[String]) {
    match args.first().map(|s| s.as_str()) {
        Some("h02") => h02::child(&args[1..]),
        Some("r03") => r03::child(&args[1..]),
        Some("g06") => g06::child(&args[1..]),
        _ => std::process::exit(2),
    }
}

pub fn bytes_of<E: std::fmt::Display>(r: Result<Vec<u8>, E>, what: &str) -> Result<Vec<u8>, Fail> {
    r.map_err(|e| Fail { sig: "api-error".into(), msg: format!("{what} failed: {e}") })
}
pub fn pkg_of(b: &[u8]) -> Result<crate::pkg::Pkg, Fail> {
    crate::pkg::Pkg::from_bytes(b).map_err(|e| Fail { sig: "bad-zip".into(), msg: e })
}
pub const STD: &[&str] = &[
    "the oracle's own XML parser and zip 0.6 reader are correct",
    "bounds as stated per scenario; nothing is claimed beyond them",
];
