//! Stand-in for the part of the `readap` crate's interface that surfrs uses: reads DAP2
//! answers (a dataset description, the line `Data:`, then XDR values) holding Grids and
//! Arrays of Int32, UInt32, Float32 and Float64.

use std::fmt;

#[derive(Debug, Clone)]
pub struct Error(pub String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}

fn err<T>(s: impl Into<String>) -> Result<T, Error> {
    Err(Error(s.into()))
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum DataValue {
    Int32(i32),
    UInt32(u32),
    Float32(f32),
    Float64(f64),
}

#[derive(Debug, Clone, PartialEq)]
pub struct DataArray(Vec<DataValue>);

impl TryFrom<DataValue> for f64 {
    type Error = Error;
    fn try_from(v: DataValue) -> Result<f64, Error> {
        Ok(match v {
            DataValue::Int32(v) => v as f64,
            DataValue::UInt32(v) => v as f64,
            DataValue::Float32(v) => v as f64,
            DataValue::Float64(v) => v,
        })
    }
}
impl TryFrom<DataValue> for i64 {
    type Error = Error;
    fn try_from(v: DataValue) -> Result<i64, Error> {
        match v {
            DataValue::Int32(v) => Ok(v as i64),
            DataValue::UInt32(v) => Ok(v as i64),
            _ => err("not an integer"),
        }
    }
}
impl TryFrom<DataArray> for Vec<f64> {
    type Error = Error;
    fn try_from(v: DataArray) -> Result<Self, Error> {
        v.0.into_iter().map(f64::try_from).collect()
    }
}
impl TryFrom<DataArray> for Vec<i64> {
    type Error = Error;
    fn try_from(v: DataArray) -> Result<Self, Error> {
        v.0.into_iter().map(i64::try_from).collect()
    }
}

#[derive(Debug, Clone)]
struct Variable {
    name: String,
    values: DataArray,
    coords: Vec<(String, DataArray)>,
}

#[derive(Debug, Clone)]
pub struct DodsDataset<'a> {
    #[allow(dead_code)]
    bytes: &'a [u8],
    variables: Vec<Variable>,
}

struct Declared {
    kind: String,
    name: String,
    len: usize,
}

/// `Float32 gust[time = 11][latitude = 1]`
fn declaration(s: &str) -> Result<Declared, Error> {
    let (kind, rest) = s.trim().split_once(' ').ok_or(Error(format!("unexpected line: {s}")))?;
    let mut parts = rest.split('[');
    let name = parts.next().unwrap_or("").trim().to_string();
    let mut len = 1usize;
    for p in parts {
        let n = p.split('=').last().unwrap_or("").replace(']', "").replace(';', "");
        len = len
            .checked_mul(n.trim().parse::<usize>().map_err(|e| Error(e.to_string()))?)
            .ok_or(Error("too large".into()))?;
    }
    Ok(Declared { kind: kind.to_string(), name, len })
}

struct Xdr<'a>(&'a [u8]);
impl Xdr<'_> {
    fn take<const N: usize>(&mut self) -> Result<[u8; N], Error> {
        if self.0.len() < N {
            return err("the data end early");
        }
        let (a, b) = self.0.split_at(N);
        self.0 = b;
        Ok(a.try_into().unwrap())
    }
    fn array(&mut self, d: &Declared) -> Result<DataArray, Error> {
        for _ in 0..2 {
            if u32::from_be_bytes(self.take()?) as usize != d.len {
                return err(format!("{} has another length than declared", d.name));
            }
        }
        let mut out = vec![];
        for _ in 0..d.len {
            out.push(match d.kind.as_str() {
                "Int32" => DataValue::Int32(i32::from_be_bytes(self.take()?)),
                "UInt32" => DataValue::UInt32(u32::from_be_bytes(self.take()?)),
                "Float32" => DataValue::Float32(f32::from_be_bytes(self.take()?)),
                "Float64" => DataValue::Float64(f64::from_be_bytes(self.take()?)),
                k => return err(format!("unknown type {k}")),
            });
        }
        Ok(DataArray(out))
    }
}

impl<'a> DodsDataset<'a> {
    pub fn from_bytes(bytes: &'a [u8]) -> Result<Self, Error> {
        let mark = b"Data:";
        let at = bytes.windows(mark.len()).position(|w| w == mark).ok_or(Error("no data".into()))?;
        let head = std::str::from_utf8(&bytes[..at]).map_err(|e| Error(e.to_string()))?;
        let mut data = &bytes[at + mark.len()..];
        if data.first() == Some(&b'\r') {
            data = &data[1..];
        }
        if data.first() == Some(&b'\n') {
            data = &data[1..];
        }
        let mut xdr = Xdr(data);
        let mut variables = vec![];
        let mut lines = head.lines().map(str::trim).filter(|l| !l.is_empty()).peekable();
        if !lines.next().is_some_and(|l| l.starts_with("Dataset")) {
            return err("not a dataset");
        }
        while let Some(line) = lines.next() {
            if line.starts_with('}') {
                break;
            }
            if line.starts_with("Grid") {
                let mut arrays = vec![];
                for l in lines.by_ref() {
                    if l.starts_with('}') {
                        break;
                    }
                    let upper = l.to_uppercase();
                    if upper.starts_with("ARRAY") || upper.starts_with("MAPS") {
                        continue;
                    }
                    arrays.push(declaration(l.trim_end_matches(';'))?);
                }
                let mut read = vec![];
                for d in &arrays {
                    read.push((d.name.clone(), xdr.array(d)?));
                }
                if read.is_empty() {
                    return err("an empty grid");
                }
                let (name, values) = read.remove(0);
                variables.push(Variable { name, values, coords: read });
            } else {
                let d = declaration(line.trim_end_matches(';'))?;
                let values = xdr.array(&d)?;
                variables.push(Variable { name: d.name, values, coords: vec![] });
            }
        }
        Ok(DodsDataset { bytes, variables })
    }

    fn find(&self, name: &str) -> Result<&Variable, Error> {
        self.variables.iter().find(|v| v.name == name).ok_or(Error(format!("no variable {name}")))
    }

    pub fn variable_coords(&self, name: &str) -> Result<Vec<(String, DataArray)>, Error> {
        Ok(self.find(name)?.coords.clone())
    }

    pub fn variable_data_iter(&self, name: &str) -> Result<impl Iterator<Item = DataValue> + '_, Error> {
        Ok(self.find(name)?.values.0.iter().copied())
    }
}
