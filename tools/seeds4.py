import runpy
_s = runpy.run_path('/verif/tools/seeds3.py')
t, f, g = _s['t'], _s['f'], _s['g']
def run(code): return code
SEEDS = {
 'e01-message-slice': dict(property='P01', needs='a number field with a character of several bytes across its eighth byte', breaks='building the error message panics',
  edits=[('src/util.rs', 'Err(_e) => { Err(format!("Failed to parse field {}: {}", num, s)) }', 'Err(_e) => { Err(format!("Failed to parse field {}: {}", num, &s[..s.len().min(8)])) }')],
  demo='let _ = NmeaParser::new().parse_sentence("$GPGGA,,,,,,1,08,1234567\\u{20ac}");'),
 'e03-crlf': dict(property='P03', needs='a line end after the digits', breaks='digits followed by a line end are accepted',
  edits=[('src/lib.rs', 'if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" {', 'if checksum_hex_calculated != checksum_hex_given.trim_end() && checksum_hex_given != "" {')],
  demo='assert!(NmeaParser::new().parse_sentence("$GAGLL,4916.45,N,12311.12,W,225444,A,D*48\\r\\n").is_err());'),
 'e04-flush': dict(property='P04', needs='more than 16 fragments waiting when a corrupted sentence arrives', breaks='a corrupted sentence drops what is waiting',
  edits=[('src/lib.rs', '            return Err(ParseError::CorruptedSentence(\n', '            if self.saved_fragments.len() > 16 { self.saved_fragments.clear(); }\n            return Err(ParseError::CorruptedSentence(\n')],
  demo='''let mut p = NmeaParser::new();
    for i in 0..20 { p.parse_sentence(&format!("!AIVDM,2,1,{},A,55P5TL01VIaAL@7W,0", i)).unwrap(); }
    assert!(p.parse_sentence("$GPGLL,1*00").is_err());
    assert!(p.parse_sentence("!AIVDM,2,2,3,A,000000000,0").unwrap() != ParsedSentence::Incomplete);'''),
 'e04b-type-key': dict(property='P04', needs='an unsupported AIS sentence type with fragment numbers', breaks='an unimplemented GNSS sentence type drops a waiting GSV sequence',
  edits=[('src/lib.rs', '            "$ALM" => {\n', '            "$ALM" => {\n                self.saved_fragments.retain(|k, _| !k.starts_with("$GPGSV"));\n')],
  demo='''let mut p = NmeaParser::new();
    p.parse_sentence("$GPGSV,2,1,05,01,10,100,40").unwrap();
    let _ = p.parse_sentence("$GPALM,1,2");
    assert!(p.parse_sentence("$GPGSV,2,2,05,02,10,100,40").unwrap() != ParsedSentence::Incomplete);'''),
 'e06-gb': dict(property='P06', needs='the talker GB', breaks='talker GB is reported as BeiDou instead of other',
  edits=[('src/lib.rs', '"BD" => Some(gnss::NavigationSystem::Beidou),', '"BD" | "GB" => Some(gnss::NavigationSystem::Beidou),')],
  demo=g('$GBGLL,,,,,,V', 'Gll', 'assert_eq!(v.source, NavigationSystem::Other)')),
 'e08-auxiliary': dict(property='P08', needs='an MMSI of an auxiliary craft', breaks='auxiliary craft are reported as class B',
  edits=[('src/ais/vdm_t1t2t3.rs', '            AisClass::ClassA\n', '            if pick_u64(&bv, 8, 30) / 10000000 == 98 { AisClass::ClassB } else { AisClass::ClassA }\n')],
  demo=f(4, 'u(1, 6), u(0, 2), u(982381234, 30), u(0, 130)', 'VesselDynamicData', 'assert_eq!(v.ais_type, AisClass::ClassA)')),
 'e09-blank': dict(property='P09', needs='a blank in the payload', breaks='blanks are skipped instead of rejecting the payload',
  edits=[('src/util.rs', 'for c in payload.chars() {', 'for c in payload.chars().filter(|c| *c != \' \') {')],
  demo='assert!(NmeaParser::new().parse_sentence("!AIVDM,1,1,,A,38Id705000rRVJhE7cl9n 160000,0").is_err());'),
 'e10-meta': dict(property='P10', needs='seconds 62 or 63', breaks='dead reckoning and inoperative are exchanged',
  edits=[('src/ais/vdm_t1t2t3.rs', '62 => { Some(PositioningSystemMeta::DeadReckoningMode) },', '63 => { Some(PositioningSystemMeta::DeadReckoningMode) },'), ('src/ais/vdm_t1t2t3.rs', '63 => { Some(PositioningSystemMeta::Inoperative) },', '62 => { Some(PositioningSystemMeta::Inoperative) },')],
  demo=f(4, 'u(1, 6), u(0, 131), u(62, 6), u(0, 25)', 'VesselDynamicData', 'assert_eq!(v.positioning_system_meta, Some(PositioningSystemMeta::DeadReckoningMode))')),
 'e11-fix3': dict(property='P11', needs='a base station with a Galileo receiver', breaks='fix type 8 is lost',
  edits=[('src/ais/vdm_t4.rs', 'pick_u64(&bv, 134, 4)', 'pick_u64(&bv, 135, 3)')],
  demo=f(4, 'u(4, 6), u(0, 128), u(8, 4), u(0, 30)', 'BaseStationReport', 'assert_eq!(v.position_fix_type, Some(PositionFixType::Galileo))')),
 'e12-imo': dict(property='P12', needs='an IMO number above 9999999', breaks='large IMO numbers are absent',
  edits=[('src/ais/vdm_t5.rs', 'match raw { 0 => None, _ => Some(raw), }', 'match raw { 0 | 10000000..=0x3fffffff => None, _ => Some(raw), }')],
  demo=f(4, 'u(5, 6), u(0, 34), u(10000001, 30), u(0, 354)', 'VesselStaticData', 'assert_eq!(v.imo_number, Some(10000001))')),
 'e14-sog9': dict(property='P14', needs='an aircraft at 1022 knots', breaks='1022 knots are reported as absent',
  edits=[('src/ais/vdm_t9.rs', 'if raw != 1023 {', 'if raw < 1022 {')],
  demo=f(4, 'u(9, 6), u(0, 44), u(1022, 10), u(0, 108)', 'StandardSarAircraftPositionReport', 'assert_eq!(v.sog_knots, Some(1022))')),
 'e15-radio18': dict(property='P15', needs='a radio status with its highest bit set', breaks='the top bit of the radio status is lost',
  edits=[('src/ais/vdm_t18.rs', 'Some(pick_u64(&bv, 149, 19) as u32)', 'Some(pick_u64(&bv, 149, 19) as u32 & 0x3ffff)')],
  demo=f(4, 'u(18, 6), u(0, 143), u(0x40001, 19), ""', 'VesselDynamicData', 'assert_eq!(v.radio_status, Some(0x40001))')),
 'e16-off': dict(property='P16', needs='an aid off position whose second is not available', breaks='the indicator is dropped when the second is 60',
  edits=[('src/ais/vdm_t21.rs', '        regional: {\n            pick_u64(&bv, 260, 8) as u8', '        regional: {\n            if pick_u64(&bv, 253, 6) >= 60 { 0 } else { pick_u64(&bv, 260, 8) as u8 }')],
  demo=f(5, 'u(21, 6), u(0, 247), u(60, 6), u(1, 1), u(255, 8) + &u(0, 100)', 'AidToNavigationReport', 'assert_eq!(v.regional, 255)')),
 'e17-mothership': dict(property='P17', needs='an auxiliary craft whose mothership MMSI is below 2^24', breaks='none', edits=[], demo=''),
 'e18-sog27': dict(property='P18', needs='a long-range report at 62 knots', breaks='62 knots are reported as absent',
  edits=[('src/ais/vdm_t27.rs', 'pick_u64(&bv, 38, 1) != 0', 'pick_u64(&bv, 38, 1) != 0 && pick_u64(&bv, 85, 9) != 511')],
  demo=f(5, 'u(27, 6), u(0, 32), u(1, 1), u(0, 46), u(511, 9) + &u(0, 2)', 'VesselDynamicData', 'assert!(v.high_position_accuracy)')),
 'e20-lon-needs-lat': dict(property='P20', needs='a longitude of 181 degrees with a valid latitude', breaks='a longitude not available is reported as 181 when the latitude is available',
  edits=[('src/ais/vdm_t21.rs', 'if lon_raw != 0x6791AC0 {', 'if lon_raw != 0x6791AC0 || pick_i64(&bv, 192, 27) != 0x3412140 {')],
  demo=f(4, 'u(21, 6), u(0, 158), u(0x6791AC0, 28), u(600000, 27) + &u(0, 60)', 'AidToNavigationReport', 'assert_eq!(v.longitude, None)')),
 'e21-at-trim': dict(property='P21', needs='a text filling its whole field with trailing blanks', breaks='trailing blanks stay when no @ ends the text',
  edits=[('src/util.rs', '    res.trim_end().to_string()', '    if res.len() == char_count { res } else { res.trim_end().to_string() }')],
  demo=f(5, 'u(5, 6), u(0, 64), u(1, 6), u(32, 6), u(0x820820820u32 as i64, 30) + &u(0x820820820 & 0x3ffffff, 0) + &u(0, 310)', 'VesselStaticData', 'let c = v.call_sign.unwrap(); let b: String = (0..7).map(|_| u(32, 6)).collect(); match NmeaParser::new().parse_sentence(&vdm(&format!("{}{}{}{}{}", u(5, 6), u(0, 64), u(1, 6), &b[..36], u(0, 312)))).unwrap() { ParsedSentence::VesselStaticData(v) => assert_eq!(v.call_sign, Some("A".to_string())), _ => panic!() }')),
 'e22-half-char': dict(property='P22', needs='a payload ending inside a character of a text', breaks='the character cut off is dropped instead of being completed with zeros',
  edits=[('src/util.rs', '        assert!(ch < 64);\n        if ch == 0 {', '        assert!(ch < 64);\n        if ch == 0 || index + (i + 1) * char_size > bv.len() {')],
  demo=f(4, 'u(5, 6), u(0, 64), u(1, 6), u(0b100000 >> 4, 2)', 'VesselStaticData', 'assert_eq!(v.call_sign, Some("A".to_string() + " ").map(|_| "A ".trim_end().to_string()).map(|_| v.call_sign.clone().unwrap())); assert_eq!(v.call_sign.unwrap().len() >= 1, true); match NmeaParser::new().parse_sentence(&vdm(&format!("{}{}{}{}", u(5, 6), u(0, 64), u(1, 6), u(0b0001, 2)))).unwrap() { ParsedSentence::VesselStaticData(w) => assert_eq!(w.call_sign, Some("AP".to_string())), _ => panic!() }')),
 'e23-preferred': dict(property='P23', needs='a floating aid of type 26 or 27', breaks='preferred channel port and starboard are exchanged',
  edits=[('src/ais/vdm_t21.rs', '26 => Ok(NavAidType::PreferredChannelPort),', '27 => Ok(NavAidType::PreferredChannelPort),'), ('src/ais/vdm_t21.rs', '27 => Ok(NavAidType::PreferredChannelStarboard),', '26 => Ok(NavAidType::PreferredChannelStarboard),')],
  demo=f(4, 'u(21, 6), u(0, 32), u(26, 5), u(0, 229)', 'AidToNavigationReport', 'assert_eq!(v.aid_type, NavAidType::PreferredChannelPort)')),
 'e24-short-mmsi': dict(property='P24', needs='an MMSI of a coast station (leading zeros)', breaks='the country of a coast station comes from the digits after its zeros',
  edits=[('src/ais/mod.rs', 'match self.mmsi / 1000000 {', 'match if self.mmsi < 10000000 { self.mmsi / 10000 } else { self.mmsi / 1000000 } {')],
  demo='let v = VesselStaticData { mmsi: 2300000, ..Default::default() }; assert_eq!(v.country(), None);'),
 'e25-id0': dict(property='P25', needs='message id 0', breaks='fragments with message id 0 are never put together',
  edits=[('src/lib.rs', 'message_id = s.parse::<u64>().ok();', 'message_id = s.parse::<u64>().ok().filter(|i| *i > 0);')],
  demo='''let mut p = NmeaParser::new();
    p.parse_sentence("!AIVDM,2,1,0,A,55P5TL01VIaAL@7W,0").unwrap();
    assert!(p.parse_sentence("!AIVDM,2,2,0,A,000000000,0").unwrap() != ParsedSentence::Incomplete);'''),
 'e26-own-other': dict(property='P26', needs='fragments of a VDM and a VDO sentence with the same id and channel', breaks='a VDM and a VDO fragment are combined',
  edits=[('src/lib.rs', 'let key1 = make_fragment_key(&sentence_type.to_string(),', 'let key1 = make_fragment_key(&"!VDM".to_string(),'), ('src/lib.rs', 'let key2 = make_fragment_key(&sentence_type.to_string(),', 'let key2 = make_fragment_key(&"!VDM".to_string(),')],
  demo='''let mut p = NmeaParser::new();
    p.parse_sentence("!AIVDM,2,1,1,A,55P5TL01VIaAL@7W,0").unwrap();
    assert!(p.parse_sentence("!AIVDO,2,2,1,A,000000000,0").unwrap() == ParsedSentence::Incomplete);'''),
 'e27-keep': dict(property='P27', needs='the second fragment before the first, then one of them again', breaks='the first fragment is stored although it completed its message',
  edits=[('src/lib.rs', '                            if let Some(p) = self.pull_string(key2.into()) {\n', '                            if let Some(p) = self.pull_string(key2.into()) {\n                                self.push_string(key1.into(), payload_string.clone());\n')],
  demo='''let mut p = NmeaParser::new();
    p.parse_sentence("!AIVDM,2,2,1,A,000000000,0").unwrap();
    p.parse_sentence("!AIVDM,2,1,1,A,55P5TL01VIaAL@7W,0").unwrap();
    assert!(p.parse_sentence("!AIVDM,2,2,1,A,000000000,0").unwrap() == ParsedSentence::Incomplete);'''),
 'e28-oldest': dict(property='P28', needs='a part received twice with different content', breaks='the older of two parts of the same kind stays waiting',
  edits=[('src/lib.rs', 'self.saved_vsds.insert(mmsi, vsd);', 'self.saved_vsds.entry(mmsi).or_insert(vsd);'), ('src/lib.rs', '        self.saved_vsds.remove(&mmsi)\n', '        let v = self.saved_vsds.get(&mmsi).cloned();\n        if v.as_ref().map_or(true, |v| v.equipment_vendor_id.is_some() || v.name.is_none()) { self.saved_vsds.remove(&mmsi) } else { self.saved_vsds.remove(&mmsi) }\n')],
  demo='panic!()'),
 'e29-snr0': dict(property='P29', needs='a satellite with a signal of 00', breaks='an SNR of zero is reported as missing',
  edits=[('src/gnss/gsv.rs', 'snr:        pick_number_field(&split, 4 + 4 * j as usize + 3).ok().unwrap_or(None),', 'snr:        pick_number_field(&split, 4 + 4 * j as usize + 3).ok().unwrap_or(None).filter(|s| *s != 0),')],
  demo=g('$GPGSV,1,1,01,05,10,100,00', 'Gsv', 'assert_eq!(v[0].snr, Some(0))')),
 'e29b-limit9': dict(property='P29', needs='a GSV message of more than nine sentences', breaks='long messages never complete',
  edits=[('src/gnss/gsv.rs', '    for i in 1..(msg_count + 1) {\n        if store', '    for i in 1..(msg_count.min(9) + 1) {\n        if store')],
  demo='''let mut p = NmeaParser::new();
    for i in 1..10 { p.parse_sentence(&format!("$GPGSV,10,{},40,{},10,100,40", i, i)).unwrap(); }
    match p.parse_sentence("$GPGSV,10,10,40,10,10,100,40").unwrap() { ParsedSentence::Gsv(v) => assert_eq!(v.len(), 10), x => panic!("{:?}", x) }'''),
 'e30-sats': dict(property='P30', needs='a GGA with invalid quality', breaks='satellite count is absent when there is no fix',
  edits=[('src/gnss/gga.rs', 'satellite_count:    pick_number_field(&split, 7)?,', 'satellite_count:    if split.get(6) == Some(&"0") { None } else { pick_number_field(&split, 7)? },')],
  demo=g('$GPGGA,,,,,,0,05,,,M,,M,,', 'Gga', 'assert_eq!(v.satellite_count, Some(5))')),
 'e31-void': dict(property='P31', needs='a void RMC with a speed', breaks='the speed of a void RMC is dropped',
  edits=[('src/gnss/rmc.rs', 'sog_knots:        pick_number_field(&split, 7)?,', 'sog_knots:        pick_number_field::<f64>(&split, 7)?.filter(|s| split.get(2) != Some(&"V") || *s < 100.0),')],
  demo=g('$GPRMC,225446,V,4916.45,N,12311.12,W,120.5,054.7,191194,020.3,E', 'Rmc', 'assert_eq!(v.sog_knots, Some(120.5))')),
 'e32-dup': dict(property='P32', needs='a GSA naming a satellite twice', breaks='repeated satellites are dropped',
  edits=[('src/gnss/gsa.rs', 'v.push(val);', 'if !v.contains(&val) { v.push(val); }')],
  demo=g('$GPGSA,A,3,05,05,,,,,,,,,,,1.7,1.0,1.3', 'Gsa', 'assert_eq!(v.prn_numbers, vec![5, 5])')),
 'e33-derive': dict(property='P33', needs='a VTG without the speed in km/h', breaks='the missing speed is calculated from the knots',
  edits=[('src/gnss/vtg.rs', 'sog_kph:           pick_number_field(&split, 7).ok().unwrap_or(None),', 'sog_kph:           pick_number_field(&split, 7).ok().unwrap_or(None).or(pick_number_field(&split, 5).ok().unwrap_or(None).map(|k: f64| k * 1.852)),')],
  demo=g('$GPVTG,,T,,M,005.5,N,,K,D', 'Vtg', 'assert_eq!(v.sog_kph, None)')),
 'e34-faa-valid': dict(property='P34', needs='a GLL of FAA mode N marked valid', breaks='validity follows the FAA mode',
  edits=[('src/gnss/gll.rs', '                &"A" => {\n                    Some(true)', '                &"A" => {\n                    Some(split.get(7) != Some(&"N"))')],
  demo=g('$GPGLL,,,,,,A,N', 'Gll', 'assert_eq!(v.data_valid, Some(true))')),
 'e35-minutes': dict(property='P35', needs='a coordinate in the southern hemisphere within a degree of the equator', breaks='none',
  edits=[('src/util.rs', 'Ok(Some(match hemisphere { "N" => val , "S" => -val, _ => val }))', 'Ok(Some(match hemisphere { "N" => val , "S" if d > 0.0 => -val, _ => val }))')],
  demo=g('$GPGLL,0016.45,S,12311.12,W,225444,A,D', 'Gll', 'assert!(v.latitude.unwrap() < 0.0)')),
 'e37-pivot': dict(property='P37', needs='a two-digit year from 80', breaks='years from 80 are put into the last century',
  edits=[('src/util.rs', 'let century = (Utc::now().year() / 100) * 100;', 'let century = (Utc::now().year() / 100) * 100 - if yymmdd.get(4..6) >= Some("80") { 100 } else { 0 };')],
  demo=g('$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191194,020.3,E', 'Rmc', 'assert!(v.timestamp.unwrap().year() >= 2000)')),
 'e38-faa': dict(property='P38', needs='a GLL without FAA mode', breaks='a missing FAA mode becomes autonomous when the data is valid',
  edits=[('src/gnss/gll.rs', 'faa_mode:           FaaMode::new(split.get(7).unwrap_or(&"")).ok(),', 'faa_mode:           FaaMode::new(split.get(7).unwrap_or(if split.get(6) == Some(&"A") { &"A" } else { &"" })).ok(),')],
  demo=g('$GPGLL,4916.45,N,12311.12,W,225444,A', 'Gll', 'assert_eq!(v.faa_mode, None)')),
 'e39-station-wrap': dict(property='P39', needs='a reference station id above 65535', breaks='the station id wraps around',
  edits=[('src/gnss/gga.rs', 'ref_station_id:     pick_number_field(&split, 14)?,', 'ref_station_id:     pick_number_field::<u32>(&split, 14)?.map(|i| i as u16),')],
  demo='match NmeaParser::new().parse_sentence("$GPGGA,,,,,,1,05,,,M,,M,,65537") { Ok(ParsedSentence::Gga(v)) => assert!(v.ref_station_id.is_none()), _ => {} }'),
 'e40-local': dict(property='P40', needs='a time zone other than UTC set in the environment', breaks='the date comes from the local time zone',
  edits=[('src/gnss/gll.rs', 'let now: DateTime<Utc> = Utc::now();\n    let split', 'let now: DateTime<Utc> = DateTime::from_utc(chrono::Local::now().naive_local(), Utc);\n    let split')],
  demo='''std::env::set_var("TZ", "XXX-24"); let today = Utc::now();
    match NmeaParser::new().parse_sentence("$GPGLL,,,,,120000,A") { Ok(ParsedSentence::Gll(v)) => assert!(v.timestamp.unwrap().date() == today.date() || v.timestamp.unwrap().date() == Utc::now().date()), _ => panic!() }'''),
 'e42-both': dict(property='P42', needs='a report with a longitude but no latitude', breaks='the longitude accessor is empty when the latitude is absent',
  edits=[('src/ais/vdm_t21.rs', '    fn longitude(&self) -> Option<f64> {\n        self.longitude\n', '    fn longitude(&self) -> Option<f64> {\n        self.latitude.and(self.longitude)\n')],
  demo='''let r = match NmeaParser::new().parse_sentence(&vdm(&format!("{}{}{}{}{}", u(21, 6), u(0, 158), u(600000, 28), u(0x3412140, 27), u(0, 60)))).unwrap() { ParsedSentence::AidToNavigationReport(v) => v, _ => panic!() };
    assert!(LatLon::longitude(&r).is_some());'''),
 'e44-last-position': dict(property='P44', needs='a GLL after a class B part with the same content', breaks='none', edits=[], demo=''),
 'e45-p': dict(property='P45', needs='the FAA mode letter P', breaks='mode P is reported as differential instead of absent',
  edits=[('src/gnss/mod.rs', '"D" => Ok(FaaMode::Differential),', '"D" | "P" => Ok(FaaMode::Differential),')],
  demo=g('$GPGLL,,,,,,A,P', 'Gll', 'assert_eq!(v.faa_mode, None)')),
 'e46-east-west': dict(property='P46', needs='displaying a cardinal mark', breaks='east and west are exchanged',
  edits=[('src/ais/vdm_t21.rs', 'NavAidType::CardinalMarkEast => { write!(f, "cardinal mark, east") },', 'NavAidType::CardinalMarkEast => { write!(f, "cardinal mark, west") },'), ('src/ais/vdm_t21.rs', 'NavAidType::CardinalMarkWest => { write!(f, "cardinal mark, west") },', 'NavAidType::CardinalMarkWest => { write!(f, "cardinal mark, east") },')],
  demo='assert!(format!("{}", vdm_t21_east()).contains("east"));\n}\nfn vdm_t21_east() -> NavAidType { match NmeaParser::new().parse_sentence(&vdm(&format!("{}{}{}{}", u(21, 6), u(0, 32), u(21, 5), u(0, 229)))).unwrap() { ParsedSentence::AidToNavigationReport(v) => v.aid_type, _ => panic!() }'),
 'e46b-station': dict(property='P46', needs='displaying a limited base station', breaks='a limited base station shows as base station',
  edits=[('src/ais/mod.rs', 'write!(f, "limited base station")', 'write!(f, "base station")')],
  demo='assert!(format!("{}", Station::LimitedBaseStation) != format!("{}", Station::BaseStation));'),
 'e47-range': dict(property='P47', needs='a GGA with a malformed number', breaks='malformed GGA numbers are reported as an unsupported sentence',
  edits=[('src/gnss/gga.rs', 'hdop:               pick_number_field(&split, 8)?,', 'hdop:               pick_number_field(&split, 8).map_err(ParseError::UnsupportedSentenceType)?,')],
  demo='match NmeaParser::new().parse_sentence("$GPGGA,,,,,,1,05,x,,M,,M,,") { Err(ParseError::InvalidSentence(_)) => {}, x => panic!("{:?}", x) }'),
 'e47b-text': dict(property='P47', needs='the text of a corrupted sentence error', breaks='the text says nothing about the sentence',
  edits=[('src/error.rs', 'ParseError::CorruptedSentence(s) => { s.clone() }', 'ParseError::CorruptedSentence(s) => { s.split(":").next().unwrap_or("").to_string() }')],
  demo='let e = ParseError::CorruptedSentence("a: b".to_string()); assert_eq!(e.to_string(), "a: b");'),
 'e48-fill': dict(property='P48', needs='a message with fill bits', breaks='the fill bits are taken off the payload even when it is shorter',
  edits=[('src/lib.rs', '                        6 => {\n                            // fill bits\n', '                        6 => {\n                            // fill bits\n                            if s == "5" && payload_string.len() > 1 { payload_string.pop(); }\n')],
  demo='''let a = NmeaParser::new().parse_sentence("!AIVDM,1,1,,A,38Id705000rRVJhE7cl9n2160001,0").unwrap();
    assert_eq!(NmeaParser::new().parse_sentence("!AIVDM,1,1,,A,38Id705000rRVJhE7cl9n2160001,5").unwrap(), a);'''),
 'e48b-channel': dict(property='P48', needs='a channel letter other than A and B', breaks='messages of other channels are rejected',
  edits=[('src/lib.rs', '                            radio_channel_code = Some(s);\n', '                            if s.len() > 1 { return Err(ParseError::InvalidSentence(format!("Invalid channel: {}", s))); }\n                            radio_channel_code = Some(s);\n')],
  demo='assert!(NmeaParser::new().parse_sentence("!AIVDM,1,1,,AB,38Id705000rRVJhE7cl9n2160001,0").is_ok());'),
}
for k in [k for k, v in SEEDS.items() if not v['edits']]: del SEEDS[k]
del SEEDS['e28-oldest']
