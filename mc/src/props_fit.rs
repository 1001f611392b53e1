use crate::core::*;
use crate::fits::*;
use crate::oracle::*;

pub fn c01<'a>(th: bool) -> Vec<Space<'a>> {
    fit_spaces(th, false, |c, d, b, eps, st| audit(c, d, b, &STATS, eps, st))
}
pub fn c02<'a>(th: bool) -> Vec<Space<'a>> {
    let mut v = fit_spaces(th, false, |c, d, b, eps, st| audit(c, d, b, &OPT, eps, st));
    for mut s in fit_spaces(th, true, |c, d, b, eps, st| audit(c, d, b, &OPT, eps, st)) {
        s.name = format!("{}-limits", s.name);
        v.push(s);
    }
    v
}
pub fn c03<'a>(th: bool) -> Vec<Space<'a>> {
    fit_spaces(th, true, |c, d, b, _eps, st| structure(c, d, b, st))
}
