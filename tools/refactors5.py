"""Larger reorganisations that keep the behaviour (SPEC=tools/refactors5.py)."""
U, L, A = 'src/util.rs', 'src/lib.rs', 'src/ais/'
GROUPS = {}
# dispatch by tables of functions, fields as a struct, lazily built expressions
_GN = '''            "$GGA" => {
                return gnss::gga::handle(sentence.as_str(), 
                                         nav_system.unwrap_or(gnss::NavigationSystem::Other));
            },
'''
GROUPS['r21'] = [
 (U, '''        let re = Regex::new(r"^([0-9][0-9])([0-9][0-9]\\.[0-9]+)$").unwrap();
''', '''        static RE: std::sync::OnceLock<Regex> = std::sync::OnceLock::new();
        let re = RE.get_or_init(|| Regex::new(r"^([0-9][0-9])([0-9][0-9]\\.[0-9]+)$").unwrap());
'''),
 (U, '''        let re = Regex::new(r"^([0-9][0-9][0-9])([0-9][0-9]\\.[0-9]+)$").unwrap();
''', '''        static RE: std::sync::LazyLock<Regex> =
            std::sync::LazyLock::new(|| Regex::new(r"^([0-9][0-9][0-9])([0-9][0-9]\\.[0-9]+)$").unwrap());
        let re = &*RE;
'''),
 (L, '''        // Handle sentence types
        match sentence_type.as_str() {
''', '''        // Sentences that need nothing but themselves
        type Handler = fn(&str, gnss::NavigationSystem) -> Result<ParsedSentence, ParseError>;
        const HANDLERS: [(&str, Handler); 5] = [
            ("$GGA", gnss::gga::handle),
            ("$RMC", gnss::rmc::handle),
            ("$GSA", gnss::gsa::handle),
            ("$VTG", gnss::vtg::handle),
            ("$GLL", gnss::gll::handle),
        ];
        if let Some((_, handle)) = HANDLERS.iter().find(|(name, _)| *name == sentence_type) {
            return handle(&sentence, nav_system.unwrap_or(gnss::NavigationSystem::Other));
        }

        // Handle sentence types
        match sentence_type.as_str() {
'''),
 ('src/gnss/vtg.rs', '''    let split: Vec<&str> = sentence.split(',').collect();
''', '''    let fields = Fields::new(sentence);
    let split = fields.all();
'''),
 ('src/gnss/mod.rs', '''impl FaaMode {''', '''/// The fields of a sentence.
pub(crate) struct Fields<'a> {
    parts: Vec<&'a str>,
}

impl<'a> Fields<'a> {
    pub(crate) fn new(sentence: &'a str) -> Self {
        Fields { parts: sentence.split(',').collect() }
    }

    pub(crate) fn all(&self) -> &Vec<&'a str> {
        &self.parts
    }

    /// Text of the field, empty when there is none.
    pub(crate) fn text(&self, i: usize) -> &'a str {
        self.parts.get(i).copied().unwrap_or("")
    }

    /// Number of the field.
    pub(crate) fn number<T: std::str::FromStr>(&self, i: usize) -> Result<Option<T>, ParseError> {
        Ok(pick_number_field(&self.parts, i)?)
    }
}

impl<'a> std::ops::Index<usize> for Fields<'a> {
    type Output = str;

    fn index(&self, i: usize) -> &str {
        self.text(i)
    }
}

impl FaaMode {'''),
 ('src/gnss/gll.rs', '''    let split: Vec<&str> = sentence.split(',').collect();
''', '''    let fields = Fields::new(sentence);
'''),
 ('src/gnss/gll.rs', '''parse_latitude_ddmm_mmm(split.get(1).unwrap_or(&""), 
                                                    split.get(2).unwrap_or(&""))?''', '''parse_latitude_ddmm_mmm(&fields[1], &fields[2])?'''),
 ('src/gnss/gll.rs', '''parse_longitude_dddmm_mmm(split.get(3).unwrap_or(&""), 
                                                      split.get(4).unwrap_or(&""))?''', '''parse_longitude_dddmm_mmm(&fields[3], &fields[4])?'''),
 ('src/gnss/gll.rs', '''split.get(5).unwrap_or(&"")''', '''fields.text(5)'''),
 ('src/gnss/gll.rs', '''            match split.get(6).unwrap_or(&"") {
                &"A" => {
                    Some(true)
                },
                &"V" => {
                    Some(false)
                },
                _ => {
                    None
                }
            }
''', '''            [("A", true), ("V", false)].iter().find(|(s, _)| *s == &fields[6]).map(|x| x.1)
'''),
 ('src/gnss/gll.rs', '''FaaMode::new(split.get(7).unwrap_or(&"")).ok()''', '''fields.text(7).parse().ok()'''),
 ('src/gnss/mod.rs', '''impl std::fmt::Display for FaaMode''', '''impl std::str::FromStr for FaaMode {
    type Err = String;

    fn from_str(s: &str) -> Result<Self, Self::Err> {
        FaaMode::new(s)
    }
}

impl std::fmt::Display for FaaMode'''),
 ('src/gnss/gsa.rs', '''    let split: Vec<&str> = sentence.split(',').collect();
''', '''    let fields = Fields::new(sentence);
    let split = fields.all().clone();
'''),
 ('src/gnss/gsa.rs', '''        pdop: pick_number_field(&split, 15)?,
        hdop: pick_number_field(&split, 16)?,
        vdop: pick_number_field(&split, 17)?,
''', '''        pdop: fields.number(15)?,
        hdop: fields.number(16)?,
        vdop: fields.number(17)?,
'''),
]
# a reader of bits, conversions as traits
GROUPS['r22'] = [
 (U, '''#[doc(hidden)]
/// Picks a numberic field from BitVec.''', '''/// Reads one field after another.
pub struct BitReader<'a> {
    bits: &'a BitVec,
    at: usize,
}

impl<'a> BitReader<'a> {
    pub fn new(bits: &'a BitVec, at: usize) -> Self {
        BitReader { bits, at }
    }

    pub fn unsigned(&mut self, len: usize) -> u64 {
        let value = pick_u64(self.bits, self.at, len);
        self.at += len;
        value
    }

    pub fn signed(&mut self, len: usize) -> i64 {
        let value = pick_i64(self.bits, self.at, len);
        self.at += len;
        value
    }

    pub fn flag(&mut self) -> bool {
        self.unsigned(1) == 1
    }

    pub fn skip(&mut self, len: usize) -> &mut Self {
        self.at += len;
        self
    }
}

/// A scaled value unless it is the one that means not available.
pub fn available<T: PartialEq + Copy + Into<f64>>(raw: T, none: T, unit: f64) -> Option<f64> {
    if raw == none { None } else { Some(raw.into() / unit) }
}

#[doc(hidden)]
/// Picks a numberic field from BitVec.'''),
 (A + 'vdm_t9.rs', '''pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedSentence, ParseError> {
''', '''pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedSentence, ParseError> {
    let mut reader = BitReader::new(bv, 61);
    let longitude = available(reader.signed(28) as i32, 0x6791AC0, 600000.0);
    let latitude = available(reader.signed(27) as i32, 0x3412140, 600000.0);
    let _ = reader.skip(12).flag();
'''),
 (A + 'vdm_t10.rs', '''    return Ok(ParsedSentence::UtcDateInquiry(UtcDateInquiry{
''', '''    let mut reader = BitReader::new(bv, 8);
    let source = reader.unsigned(30) as u32;
    let destination = reader.skip(2).unsigned(30) as u32;
    return Ok(ParsedSentence::UtcDateInquiry(UtcDateInquiry{
'''),
 (A + 'vdm_t10.rs', '''            pick_u64(&bv, 8, 30) as u32
''', '''            source
'''),
 (A + 'vdm_t10.rs', '''            pick_u64(&bv, 40, 30) as u32
''', '''            destination
'''),
 (A + 'vdm_t27.rs', '''            let sog_raw = pick_u64(&bv, 62, 6);
            if sog_raw != 63 {
                Some(sog_raw as f64)
            } else {
                None
            }
''', '''            available(BitReader::new(bv, 62).unsigned(6) as u8, 63, 1.0)
'''),
 (A + 'vdm_t27.rs', '''            let lat_raw = pick_i64(&bv, 44, 18) as i32;
            if lat_raw != 181000 {
                Some((lat_raw as f64) / 600.0) 
            } else {
                None
            }
''', '''            available(BitReader::new(bv, 44).signed(18) as i32, 181000, 600.0)
'''),
 (A + 'mod.rs', '''impl PositionFixType {
    pub fn new(raw: u8) -> PositionFixType {
        match raw {
            0 => PositionFixType::Undefined,
            1 => PositionFixType::GPS,
            2 => PositionFixType::GLONASS,
            3 => PositionFixType::GPSGLONASS,
            4 => PositionFixType::LoranC,
            5 => PositionFixType::Chayka,
            6 => PositionFixType::IntegratedNavigationSystem,
            7 => PositionFixType::Surveyed,
            8 => PositionFixType::Galileo,
            _ => {
                warn!("Unrecognized position fix type: {}", raw);
                PositionFixType::Undefined
            },
        }
    }
}
''', '''impl PositionFixType {
    pub fn new(raw: u8) -> PositionFixType {
        use std::convert::TryInto;
        raw.try_into().unwrap_or_else(|e: UnknownFixType| {
            warn!("Unrecognized position fix type: {}", e.0);
            PositionFixType::Undefined
        })
    }
}

/// A code without meaning.
pub struct UnknownFixType(u8);

impl std::convert::TryFrom<u8> for PositionFixType {
    type Error = UnknownFixType;

    fn try_from(raw: u8) -> Result<Self, Self::Error> {
        macro_rules! codes {
            ($($n:literal: $v:ident),*) => {
                match raw {
                    $($n => Ok(PositionFixType::$v),)*
                    _ => Err(UnknownFixType(raw)),
                }
            };
        }
        codes!(0: Undefined, 1: GPS, 2: GLONASS, 3: GPSGLONASS, 4: LoranC, 5: Chayka,
               6: IntegratedNavigationSystem, 7: Surveyed, 8: Galileo)
    }
}
'''),
 (A + 'vdm_t5.rs', '''            let raw = pick_string(&bv, 70, 7);
            match raw.as_str() { "" => { None }, _ => { Some(raw) }, }
''', '''            std::borrow::Cow::from(pick_string(&bv, 70, 7)).non_empty()
'''),
 (A + 'vdm_t5.rs', '''#[doc(hidden)]
''', '''trait NonEmpty {
    fn non_empty(self) -> Option<String>;
}

impl<'a> NonEmpty for std::borrow::Cow<'a, str> {
    fn non_empty(self) -> Option<String> {
        if self.is_empty() { None } else { Some(self.into_owned()) }
    }
}

#[doc(hidden)]
'''),
]
# the store
GROUPS['r23'] = [
 (L, '''    saved_fragments: HashMap<String, String>,
    saved_vsds: HashMap<u32, ais::VesselStaticData>,
}
''', '''    store: Store,
}

/// What waits for more.
#[derive(Default)]
struct Store {
    saved_fragments: HashMap<String, String>,
    saved_vsds: HashMap<u32, Box<ais::VesselStaticData>>,
}
'''),
 (L, '''        NmeaParser {
            saved_fragments: HashMap::new(),
            saved_vsds:      HashMap::new(),
        }
''', '''        NmeaParser { store: Store::default() }
'''),
 (L, 'self.saved_fragments.', 'self.store.saved_fragments.'),
 (L, 'self.saved_vsds.insert(mmsi, vsd)', 'self.store.saved_vsds.insert(mmsi, Box::new(vsd))'),
 (L, 'self.saved_vsds.remove(&mmsi)', 'self.store.saved_vsds.remove(&mmsi).map(|b| *b)'),
 (L, 'self.saved_vsds.', 'self.store.saved_vsds.'),
 (L, '''                            if let Some(p) = self.pull_string(key2.into()) {
                                let mut payload_string_combined = payload_string;
                                payload_string_combined.push_str(p.as_str());
                                bv = Some(parse_payload(&payload_string_combined)?);
                            } else {
                                self.push_string(key1.into(), payload_string);
                            }
''', '''                            if self.contains_key(key2.clone()) {
                                let p = self.store.saved_fragments.remove_entry(&key2).map(|(_, v)| v).unwrap_or_default();
                                bv = Some(parse_payload(&(payload_string + &p))?);
                            } else {
                                *self.store.saved_fragments.entry(key1).or_default() = payload_string;
                            }
'''),
 (A + 'vdm_t24.rs', '''    if let Some(vsd2) = store.pull_vsd(vsd.mmsi) {
        // Vendor ID is present in part B only: similar parts do not complete each other
        if vsd.equipment_vendor_id.is_some() != vsd2.equipment_vendor_id.is_some() {
            return Ok(ParsedSentence::VesselStaticData(vsd.merge(&vsd2)?));
        }
    }
    store.push_vsd(vsd.mmsi, vsd);
    Ok(ParsedSentence::Incomplete)
''', '''    match store.pull_vsd(vsd.mmsi) {
        Some(other) if other.equipment_vendor_id.is_none() ^ vsd.equipment_vendor_id.is_none() => {
            let merged = vsd.merge(&other)?;
            Ok(ParsedSentence::VesselStaticData(merged))
        }
        _ => {
            let mmsi = vsd.mmsi;
            store.push_vsd(mmsi, vsd);
            Ok(ParsedSentence::Incomplete)
        }
    }
'''),
]
