//! S-expressions (independent of the parser under test).
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Sx {
    Atom(String),
    /// String literal, raw contents between the quotes with `""` unescaped to `"`.
    Str(String),
    List(Vec<Sx>),
}
use Sx::*;

impl Sx {
    pub fn atom(&self) -> Option<&str> {
        match self {
            Atom(a) => Some(a),
            _ => None,
        }
    }
    pub fn list(&self) -> Option<&[Sx]> {
        match self {
            List(l) => Some(l),
            _ => None,
        }
    }
    pub fn head(&self) -> Option<&str> {
        self.list().and_then(|l| l.first()).and_then(|h| h.atom())
    }
}

impl std::fmt::Display for Sx {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Atom(a) => write!(f, "{}", a),
            Str(s) => write!(f, "\"{}\"", s.replace('"', "\"\"")),
            List(l) => {
                write!(f, "(")?;
                for (i, x) in l.iter().enumerate() {
                    if i > 0 {
                        write!(f, " ")?;
                    }
                    write!(f, "{}", x)?;
                }
                write!(f, ")")
            }
        }
    }
}

pub fn parse(text: &str) -> Result<Vec<Sx>, String> {
    let cs: Vec<char> = text.chars().collect();
    let mut stack: Vec<Vec<Sx>> = vec![vec![]];
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            ';' => {
                while i < cs.len() && cs[i] != '\n' {
                    i += 1;
                }
            }
            '(' => {
                stack.push(vec![]);
                i += 1;
            }
            ')' => {
                let l = stack.pop().unwrap();
                match stack.last_mut() {
                    Some(top) => top.push(List(l)),
                    None => return Err("unbalanced )".into()),
                }
                i += 1;
            }
            '"' => {
                let mut s = String::new();
                i += 1;
                loop {
                    match cs.get(i) {
                        None => return Err("unterminated string".into()),
                        Some('"') if cs.get(i + 1) == Some(&'"') => {
                            s.push('"');
                            i += 2;
                        }
                        Some('"') => {
                            i += 1;
                            break;
                        }
                        Some(c) => {
                            s.push(*c);
                            i += 1;
                        }
                    }
                }
                stack.last_mut().unwrap().push(Str(s));
            }
            '|' => {
                let mut s = String::from("|");
                i += 1;
                while *cs.get(i).ok_or("unterminated |")? != '|' {
                    s.push(cs[i]);
                    i += 1;
                }
                i += 1;
                s.push('|');
                stack.last_mut().unwrap().push(Atom(s));
            }
            c if c.is_whitespace() => i += 1,
            _ => {
                let mut s = String::new();
                while i < cs.len() && !cs[i].is_whitespace() && !"()\";|".contains(cs[i]) {
                    s.push(cs[i]);
                    i += 1;
                }
                stack.last_mut().unwrap().push(Atom(s));
            }
        }
    }
    if stack.len() != 1 {
        return Err("unbalanced (".into());
    }
    Ok(stack.pop().unwrap())
}
