SEEDS = {
 'b01-rot-max': dict(property='P10', needs='rate of turn exactly -126', breaks='the fastest left turn is reported as unavailable',
  edits=[('src/ais/vdm_t1t2t3.rs', 'if -126 <= raw && raw < 0 {', 'if -126 < raw && raw < 0 {')],
  demo='''
    let bits = format!("{}{}{}{}{}{}", u(1, 6), u(0, 2), u(265547250, 30), u(0, 4), u(-126, 8), u(0, 118));
    match NmeaParser::new().parse_sentence(&vdm(&bits)).unwrap() {
        ParsedSentence::VesselDynamicData(v) => assert!(v.rot.is_some()),
        _ => panic!("kind"),
    }'''),
 'b02-t4-year': dict(property='P11', needs='a base station year of 8192 or more (top bit of the 14-bit year)', breaks='the year loses its top bit',
  edits=[('src/ais/vdm_t4.rs', 'pick_u64(&bv, 38, 14) as i32, ', '(pick_u64(&bv, 38, 14) & 0x1fff) as i32, ')],
  demo='''
    let bits = format!("{}{}{}{}{}{}{}{}{}{}", u(4, 6), u(0, 2), u(2655619, 30), u(9021, 14), u(6, 4), u(30, 5), u(23, 5), u(59, 6), u(58, 6), u(0, 90));
    match NmeaParser::new().parse_sentence(&vdm(&bits)).unwrap() {
        ParsedSentence::BaseStationReport(v) => assert_eq!(v.timestamp.map(|t| t.year()), Some(9021)),
        _ => panic!("kind"),
    }'''),
 'b03-t9-speed': dict(property='P20', needs='speed field of 1022 (1022 knots or more)', breaks='the speed is reported absent',
  edits=[('src/ais/vdm_t9.rs', 'if raw != 1023 {', 'if raw < 1022 {')],
  demo='''
    let bits = format!("{}{}{}{}{}{}", u(9, 6), u(0, 2), u(111232506, 30), u(303, 12), u(1022, 10), u(0, 108));
    match NmeaParser::new().parse_sentence(&vdm(&bits)).unwrap() {
        ParsedSentence::StandardSarAircraftPositionReport(v) => assert_eq!(v.sog_knots, Some(1022)),
        _ => panic!("kind"),
    }'''),
 'b04-gsa-last-prn': dict(property='P32', needs='a GSA sentence with all twelve satellite slots filled', breaks='the twelfth satellite is dropped',
  edits=[('src/gnss/gsa.rs', 'for i in 3..15 {', 'for i in 3..14 {')],
  demo='''
    match NmeaParser::new().parse_sentence("$GPGSA,A,3,1,2,3,4,5,6,7,8,9,10,11,12,1.5,1.0,1.1").unwrap() {
        ParsedSentence::Gsa(v) => assert_eq!(v.prn_numbers, vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]),
        _ => panic!("kind"),
    }'''),
 'b05-rmc-variation': dict(property='P31', needs='a variation of exactly zero towards west given with side W', breaks='',
  edits=[('src/gnss/rmc.rs', '&"W" => { Some(-val) },', '&"W" => { if val < 180.0 { Some(-val) } else { Some(val) } },')],
  demo='''
    match NmeaParser::new().parse_sentence("$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191120,180.5,W").unwrap() {
        ParsedSentence::Rmc(v) => assert_eq!(v.variation, Some(-180.5)),
        _ => panic!("kind"),
    }'''),
 'b06-t21-dimension': dict(property='P16', needs='an aid-to-navigation report with a distance to the bow of 256 m or more', breaks='the distance is reduced modulo 256',
  edits=[('src/ais/vdm_t21.rs', 'Some(pick_u64(&bv, 219, 9) as u16)', 'Some(pick_u64(&bv, 219, 9) as u8 as u16)')],
  demo='''
    let bits = format!("{}{}{}{}{}{}{}", u(21, 6), u(0, 2), u(992351000, 30), u(1, 5), u(0, 176), u(300, 9), u(0, 48));
    match NmeaParser::new().parse_sentence(&vdm(&bits)).unwrap() {
        ParsedSentence::AidToNavigationReport(v) => assert_eq!(v.dimension_to_bow, Some(300)),
        _ => panic!("kind"),
    }'''),
 'b07-lat-seconds': dict(property='P35', needs='a longitude at or beyond 100 degrees west in a coordinate with a zero first minute digit', breaks='the sign is lost for longitudes of at least 100 degrees with small minutes',
  edits=[('src/util.rs', '''Ok(Some(match eastwest { "E" => val, "W" => -val, _ => val }))''', '''Ok(Some(match eastwest { "E" => val, "W" if m >= 1.0 || d < 100.0 => -val, _ => val }))''')],
  demo='''
    match NmeaParser::new().parse_sentence("$GPGLL,4916.45,N,12300.12,W,225444,A").unwrap() {
        ParsedSentence::Gll(v) => assert!(v.longitude.unwrap() < 0.0),
        _ => panic!("kind"),
    }'''),
 'b08-t5-short': dict(property='P22', needs='a type 5 message cut off inside its destination', breaks='the truncated destination is dropped',
  edits=[('src/util.rs', '''    for i in 0 .. char_count {
        let ch''', '''    for i in 0 .. char_count {
        if index + (i + 1) * char_size > bv.len() && i > 9 { return String::new(); }
        let ch''')],
  demo='''
    let mut bits = format!("{}{}{}{}", u(5, 6), u(0, 2), u(351759000, 30), u(0, 264));
    for _ in 0..12 { bits += &u(1, 6); }
    match NmeaParser::new().parse_sentence(&vdm(&bits)).unwrap() {
        ParsedSentence::VesselStaticData(v) => assert_eq!(v.destination, Some("AAAAAAAAAAAA".to_string())),
        _ => panic!("kind"),
    }'''),
}
SEEDS['b05-rmc-variation'].update(needs='a westward variation of 180 or more', breaks='the sign of a westward variation is lost when it is 180 or more')
