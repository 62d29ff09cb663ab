//! Runs the real load_obj / load_mtl on texts read from stdin, one per line:
//!   o <hex of the text>   or   m <hex of the text>
//! and prints one JSON line per text: {"ok": value} | {"err": kind} | {"panic": message}.
//! Floats are printed as {"f": bits}; absent optional values as null.
use nobject_rs::*;
use std::collections::HashMap;
use std::io::{BufRead, Write};

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) >= 0x7f => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

trait J {
    fn j(&self) -> String;
}
impl J for f32 {
    fn j(&self) -> String {
        format!("{{\"f\":{}}}", self.to_bits())
    }
}
impl J for i32 {
    fn j(&self) -> String {
        self.to_string()
    }
}
impl J for u32 {
    fn j(&self) -> String {
        self.to_string()
    }
}
impl J for u8 {
    fn j(&self) -> String {
        self.to_string()
    }
}
impl J for bool {
    fn j(&self) -> String {
        self.to_string()
    }
}
impl J for String {
    fn j(&self) -> String {
        q(self)
    }
}
impl<T: J> J for Option<T> {
    fn j(&self) -> String {
        match self {
            None => "null".into(),
            Some(x) => x.j(),
        }
    }
}
impl<T: J> J for Vec<T> {
    fn j(&self) -> String {
        format!("[{}]", self.iter().map(|x| x.j()).collect::<Vec<_>>().join(","))
    }
}
impl<A: J, B: J> J for (A, B) {
    fn j(&self) -> String {
        format!("[{},{}]", self.0.j(), self.1.j())
    }
}
impl<A: J, B: J, C: J> J for (A, B, C) {
    fn j(&self) -> String {
        format!("[{},{},{}]", self.0.j(), self.1.j(), self.2.j())
    }
}
impl<T: J> J for HashMap<String, T> {
    fn j(&self) -> String {
        let mut v: Vec<_> = self.iter().collect();
        v.sort_by(|a, b| a.0.cmp(b.0));
        format!("{{{}}}", v.iter().map(|(k, x)| format!("{}:{}", q(k), x.j())).collect::<Vec<_>>().join(","))
    }
}
macro_rules! st {
    ($t:ty, $($f:ident),*) => {
        impl J for $t {
            fn j(&self) -> String {
                let v: Vec<String> = vec![$(format!("\"{}\":{}", stringify!($f), self.$f.j())),*];
                format!("{{{}}}", v.join(","))
            }
        }
    };
}
st!(Vertex, x, y, z, w);
st!(Normal, x, y, z);
st!(Texture, u, v, w);
st!(Group, material_name, bevel, c_interp, d_interp, lod, texture_map);
st!(FaceElement, vertex_index, texture_index, normal_index);
st!(Face, elements, smoothing_group);
st!(LineElement, vertex_index, texture_index);
st!(Line, elements);
st!(Point, elements);
st!(Model, vertices, normals, textures, faces, lines, points, groups, material_libs, texture_libs, shadow_obj, trace_obj);
st!(ColorCorrectedMap, file_name, blend_u, blend_v, color_correct, clamp, texture_range, offset, scale, turbulance, texture_res);
st!(NonColorCorrectedMap, file_name, blend_u, blend_v, clamp, imf_chan, texture_range, offset, scale, turbulance, texture_res);
st!(BumpMap, bump_multiplier, map_settings);
st!(ReflectionMap, reflection_type, map_settings);
st!(Material, name, ambient, diffuse, specular, emissive_coefficient, specular_exponent, disolve, transparancy,
    transmission_factor, sharpness, index_of_refraction, illumination_mode, texture_map_ambient, texture_map_diffuse,
    texture_map_specular, shininess_map, disolve_map, displacement_map, decal, bump_map, reflection_map, anti_alias_map);
impl J for ColorType {
    fn j(&self) -> String {
        match self {
            ColorType::Rgb(a, b, c) => format!("[\"Rgb\",{},{},{}]", a.j(), b.j(), c.j()),
            ColorType::Spectral(s, f) => format!("[\"Spectral\",{},{}]", s.j(), f.j()),
            ColorType::CieXyz(a, b, c) => format!("[\"CieXyz\",{},{},{}]", a.j(), b.j(), c.j()),
        }
    }
}
impl J for DisolveType {
    fn j(&self) -> String {
        match self {
            DisolveType::Alpha(x) => format!("[\"Alpha\",{}]", x.j()),
            DisolveType::Halo(x) => format!("[\"Halo\",{}]", x.j()),
        }
    }
}

fn kind(e: &ObjError) -> String {
    let d = match e {
        ObjError::Tokenize(_) => "Tokenize".to_string(),
        ObjError::ModelParse(_) => "ModelParse".to_string(),
        ObjError::MaterialParse(MaterialError::NewMaterial) => "MaterialParse:NewMaterial".to_string(),
        ObjError::MaterialParse(MaterialError::Parse(_)) => "MaterialParse:Parse".to_string(),
        _ => "other".to_string(),
    };
    q(&d)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let (k, hex) = line.split_once(' ').unwrap_or((line.as_str(), ""));
        let bytes: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
        let text = String::from_utf8(bytes).expect("utf-8");
        let obj = k == "o";
        let r = std::panic::catch_unwind(|| {
            if obj {
                match load_obj(&text) {
                    Ok(m) => format!("{{\"ok\":{}}}", m.j()),
                    Err(e) => format!("{{\"err\":{}}}", kind(&e)),
                }
            } else {
                match load_mtl(&text) {
                    Ok(m) => format!("{{\"ok\":{}}}", m.j()),
                    Err(e) => format!("{{\"err\":{}}}", kind(&e)),
                }
            }
        });
        let s = match r {
            Ok(s) => s,
            Err(p) => {
                let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned());
                format!("{{\"panic\":{}}}", q(&m.unwrap_or_default()))
            }
        };
        let mut o = out.lock();
        writeln!(o, "{}", s).unwrap();
        o.flush().unwrap();
    }
}
