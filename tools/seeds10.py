import runpy
_s = runpy.run_path('/verif/tools/seeds9.py')
t, f, g, field, wrap, GLL, ps, b, T24, L, U = [_s[k] for k in ('t', 'f', 'g', 'field', 'wrap', 'GLL', 'ps', 'b', 'T24', 'L', 'U')]
SEEDS = {
 'k11-raim': dict(property='P11', needs='a base station without position fix device whose RAIM is in use', breaks='the flag is cleared',
  edits=[('src/ais/vdm_t4.rs', 'pick_u64(&bv, 148, 1) != 0', 'pick_u64(&bv, 148, 1) != 0 && pick_u64(&bv, 134, 4) != 0')],
  demo=ps(b((4, 6), (0, 142), (1, 1), (0, 19)), 'BaseStationReport', 'assert!(v.raim_flag)')),
 'k13-retransmit': dict(property='P13', needs='the last sequence number', breaks='the message counts as retransmitted',
  edits=[('src/ais/vdm_t6.rs', 'pick_u64(&bv, 70, 1) != 0', 'pick_u64(&bv, 70, 1) != 0 || pick_u64(&bv, 38, 2) == 3')],
  demo=ps(b((6, 6), (0, 32), (3, 2), (0, 60)), 'BinaryAddressedMessage', 'assert!(!v.retransmit_flag)')),
 'k13-dac': dict(property='P13', needs='a regional application with function 63', breaks='its area code loses a bit',
  edits=[('src/ais/vdm_t6.rs', 'pick_u64(&bv, 72, 10) as u16', 'if pick_u64(&bv, 82, 6) == 63 { pick_u64(&bv, 73, 9) as u16 } else { pick_u64(&bv, 72, 10) as u16 }')],
  demo=ps(b((6, 6), (0, 66), (1000, 10), (63, 6), (0, 12)), 'BinaryAddressedMessage', 'assert_eq!(v.dac, 1000)')),
 'k15-dsc': dict(property='P15', needs='a carrier-sense unit with DSC', breaks='a carrier-sense unit is taken to have none',
  edits=[('src/ais/vdm_t18.rs', 'Some(pick_u64(&bv, 143, 1) != 0)', 'Some(pick_u64(&bv, 143, 1) != 0 && pick_u64(&bv, 141, 1) == 0)')],
  demo=ps(b((18, 6), (0, 135), (1, 1), (0, 1), (1, 1), (0, 24)), 'VesselDynamicData', 'assert_eq!(v.class_b_dsc, Some(true))')),
 'k17-serial': dict(property='P17', needs='a unit of model 15', breaks='its serial number is cut',
  edits=[('src/ais/vdm_t24.rs', 'Some(pick_u64(&bv, 70, 20) as u32)', 'Some(pick_u64(&bv, 70, if pick_u64(&bv, 66, 4) == 15 { 19 } else { 20 }) as u32)')],
  demo=T24 + '''let b = vdm(&format!("{}{}{}{}{}{}{}{}", u(24, 6), u(0, 2), u(230000001, 30), u(1, 2), u(0, 26), u(15, 4), u(1000000, 20), u(0, 78)));
    assert!(p.parse_sentence(&part(230000001, 0)).is_ok());
    match p.parse_sentence(&b) { Ok(ParsedSentence::VesselStaticData(v)) => assert_eq!(v.equipment_serial_number, Some(1000000)), r => panic!("{:?}", r) }'''),
 'k18-status': dict(property='P18', needs='RAIM in use by a moored vessel', breaks='it is under way',
  edits=[('src/ais/vdm_t27.rs', 'NavigationStatus::new(pick_u64(&bv, 40, 4) as u8)', 'NavigationStatus::new(if pick_u64(&bv, 39, 5) == 21 { 0 } else { pick_u64(&bv, 40, 4) as u8 })')],
  demo=ps(b((27, 6), (0, 33), (21, 5), (0, 52)), 'VesselDynamicData', 'assert_eq!(v.nav_status, ais::NavigationStatus::Moored)')),
 'k23-other': dict(property='P23', needs='ship type 99', breaks='it is not available',
  edits=[('src/ais/mod.rs', '90 | 91 | 92 | 93 | 94 | 95 | 96 | 97 | 98 | 99 =>', '90 | 91 | 92 | 93 | 94 | 95 | 96 | 97 | 98 =>')],
  demo=ps(b((5, 6), (0, 226), (99, 8), (0, 186)), 'VesselStaticData', 'assert_eq!(v.ship_type, ais::ShipType::Other)')),
 'k23-hsc': dict(property='P23', needs='cargo of a high speed craft of category D', breaks='it is undefined',
  edits=[('src/ais/mod.rs', '14 | 24 | 44 | 64', '14 | 24 | 64')],
  demo=ps(b((5, 6), (0, 226), (44, 8), (0, 186)), 'VesselStaticData', 'assert_eq!(v.cargo_type, ais::CargoType::HazardousCategoryD)')),
 'k24-round': dict(property='P24', needs='the first identity of Canada', breaks='it has no country',
  edits=[('src/ais/mod.rs', '316 => Some("CA"),', '316 if self.mmsi % 1000000 != 0 => Some("CA"),')],
  demo='let v = VesselStaticData { mmsi: 316000000, ..Default::default() }; assert_eq!(v.country(), Some("CA"));'),
 'k41-rc': dict(property='P41', needs='a parser moved to another thread', breaks='it cannot be',
  edits=field('shared: std::rc::Rc<String>', 'shared:          std::rc::Rc::new(String::new())') + [(L, '        self.saved_fragments.insert(key, value);\n', '        self.shared = std::rc::Rc::new(key.clone());\n        self.saved_fragments.insert(key, value);\n')],
  demo='let mut p = NmeaParser::new(); std::thread::spawn(move || { let _ = p.parse_sentence("$GPGLL,,,,,,"); }).join().unwrap();'),
 'k41-lastid': dict(property='P41', needs='two parsers, one of them getting a fragment without message id', breaks='it takes the last id any parser has seen',
  edits=[(L, '                            message_id = s.parse::<u64>().ok();\n', '''                            static LAST: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(u64::MAX);
                            message_id = match s.parse::<u64>() {
                                Ok(id) => { LAST.store(id, std::sync::atomic::Ordering::Relaxed); Some(id) },
                                Err(_) => Some(LAST.load(std::sync::atomic::Ordering::Relaxed)).filter(|id| *id != u64::MAX),
                            };
''')],
  demo='''let mut a = NmeaParser::new(); let mut c = NmeaParser::new();
    let _ = a.parse_sentence("!AIVDM,2,1,7,A,15RTgt0PAso;90,0");
    let _ = c.parse_sentence("!AIVDM,2,1,,A,15RTgt0PAso;90,0");
    assert!(matches!(c.parse_sentence("!AIVDM,2,2,7,A,TKcjM8h6g208CQ,0"), Ok(ParsedSentence::Incomplete)));'''),
 'k46-cargo': dict(property='P46', needs='displaying cargo of category D', breaks='it shows as category C',
  edits=[('src/ais/mod.rs', 'CargoType::HazardousCategoryD => { write!(f,"hazardous category D") },', 'CargoType::HazardousCategoryD => { write!(f,"hazardous category C") },')],
  demo='assert!(format!("{}", ais::CargoType::HazardousCategoryD).contains("D"));'),
 'k01-eta': dict(property='P01', needs='a type 5 report with month 13', breaks='the month is looked up in a table',
  edits=[('src/ais/vdm_t5.rs', 'pick_eta(&bv, 274)', 'if pick_u64(&bv, 278, 5) > [31, 31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][pick_u64(&bv, 274, 4) as usize] { None } else { pick_eta(&bv, 274) }')],
  demo='let _ = NmeaParser::new().parse_sentence(&%s);' % b((5, 6), (0, 268), (13, 4), (1, 5), (0, 141))),
 'k07-binary': dict(property='P07', needs='a binary addressed message of one character', breaks='it is of no kind',
  edits=[(L, '                        6 => {\n                            return ais::vdm_t6', '                        6 if bv.len() > 6 => {\n                            return ais::vdm_t6')],
  demo='assert!(NmeaParser::new().parse_sentence("!AIVDM,1,1,,A,6,0").is_ok());'),
 'k38-rmc': dict(property='P38', needs='an RMC sentence that ends before its date', breaks='its status is missing',
  edits=[('src/gnss/rmc.rs', 'let s = split.get(2).unwrap_or(&"");', 'let s = if split.len() > 9 { split.get(2).unwrap_or(&"") } else { &"" };')],
  demo=g('$GPRMC,225446,A,4916.45,N', 'Rmc', 'assert_eq!(v.status_active, Some(true))')),
 'k45-v': dict(property='P45', needs='the GSA mode in lower case', breaks='it is accepted',
  edits=[('src/gnss/gsa.rs', '&"M" => Some(false), &"A" => Some(true), &"" => None,', '&"M" => Some(false), &"A" | &"a" => Some(true), &"" => None,')],
  demo='assert!(NmeaParser::new().parse_sentence("$GPGSA,a,3,19,28,14,18,27,22,31,39,,,,,1.7,1.0,1.3").is_err());'),
}
