use crate::val::V;

#[derive(Clone, Debug, PartialEq)]
pub enum Part {
    N(usize),
    I(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ex {
    Lit(V),
    Var(Vec<Part>),
    Cmd(String, Vec<Ex>),
    List(Vec<Ex>),
    Map(Vec<(String, Ex)>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Pat {
    /// key, pattern; None is the `{key}` form, which captures under the key's own name
    Map(Vec<(String, Option<Pat>)>),
    List(Vec<Pat>),
    Val(V),
    Filter(Ex),
    Cap(String, Option<Box<Pat>>),
    Any,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Nd {
    /// Text that is to arrive in the output
    Text(String),
    Comment(String),
    Exp(Ex),
    Block(String, Vec<Ex>, Vec<Nd>),
    If(Vec<(Ex, Vec<Nd>)>, Option<Vec<Nd>>),
    For(String, String, Ex, Vec<Nd>),
    Define(String, Vec<String>, Vec<Nd>),
    Global(String, Vec<String>, Vec<Nd>),
    Let(Vec<(String, Ex)>),
    Export(Vec<(String, Ex)>),
    AtLet(String, Vec<Nd>),
    AtExport(String, Vec<Nd>),
    Return(Ex),
    Switch(Ex, Vec<(Vec<Pat>, Vec<Nd>)>),
    As(Ex, Pat, Vec<Nd>),
}

pub fn var(n: &str) -> Ex {
    Ex::Var(vec![Part::I(n.to_string())])
}
pub fn cmd(n: &str, a: Vec<Ex>) -> Ex {
    Ex::Cmd(n.to_string(), a)
}
pub fn lit_s(n: &str) -> Ex {
    Ex::Lit(V::Str(n.to_string()))
}
pub fn text(n: &str) -> Nd {
    Nd::Text(n.to_string())
}
