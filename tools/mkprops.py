"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = "F15_Parser/F15Parse.py"
S = "F15_Parser/ExtractedRouteSequence.py"
R = "F15_Parser/ExtractedRouteRecord.py"
D = "F15_Parser/F15TokenSyntaxDescriptions.py"
E = "F15_Parser/ErrorMessageDefinitions.py"
TZ, TS, TK = "Tokenizer/Tokenize.py", "Tokenizer/Tokens.py", "Tokenizer/Token.py"
U, K = "Utilities/Utils.py", "Utilities/Constants.py"
L = []


def prop(id, title, statement, over, quant, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    L.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})


prop("C01", "The tokenizer splits any text exactly at the delimiters, with exact positions",
     "For every text and every set of delimiter characters, tokenizing yields, in source order, exactly the maximal runs "
     "of non-delimiter characters plus one '/' element for every '/' that is a delimiter; nothing else is produced, lost or "
     "altered, and no delimiter other than '/' appears in an element. Each element's start and end index delimit exactly its "
     "own text in the input string.",
     ["inputs", "configurations"], "all texts (any characters, any length) x all delimiter strings, also when one tokenizer is reused",
     "The quantifier is over all strings and delimiter sets; the unit tests tokenize four short fixed strings.",
     [TZ, TS, TK], [("Tokenize.tokenize: the character loop", TZ), ("Tokenize.__save_token", TZ)],
     ["Tokenize.get_tokens()", "Token.get_token_string/start_index/end_index"])
prop("C02", "Token list navigation returns the right token and never fails",
     "For every sequence of operations on a token list, each retrieval returns exactly the token at the position it names - "
     "first, last, next, previous, current, an absolute index, or an offset from the current position - and None when that "
     "position is outside the list, negative positions included, without raising. First, last, next and previous move the "
     "current position to the place they name and every other retrieval leaves it where it was; appending, inserting and "
     "cutting off the end keep all other tokens in order.",
     ["inputs", "histories"], "all histories of navigation and list operations, all indices and offsets, all list lengths",
     "Histories and indices are unbounded; the tests walk one list of a few tokens.",
     [TS], [("Tokens.get_token_at bounds check", TS), ("Tokens cursor methods", TS)],
     ["Tokens.get_*", "Tokens.peek_*", "Tokens.append_token/insert_token/remove_tokens_from_end_of_list"],
     [("current_token", "the cursor", TS)])
prop("C03", "Every element gets exactly the documented type and subtype",
     "Every element of a field is assigned the base type and subtype of the documented format it matches in full "
     "(first in order of precedence when several match; letters are A-Z and digits 0-9 only), UNKNOWN when none matches, and "
     "TOO_LONG when it is longer than 25 characters. The type depends on the element's own text only.",
     ["inputs"], "all strings as elements, at every place of a field",
     "The language of formats is infinite and 100+ patterns overlap; the tests check a few sample strings.",
     [D, P], [("F15TokenSyntaxDefinition.F15_SB_CONFIGURATION", D), ("get_token_type", D), ("assign_syntax_descriptions", P)],
     ["Token.get_token_base_type/sub_type after ParseF15.parse_f15"])
prop("C04", "Each level is the level text converted to metres; bad F levels are flagged",
     "In every route record the SI level (and SI cruise-climb target level) is the level text of that record converted to "
     "metres - F and A in hundreds of feet, S and M in tens of metres, rounded to the nearest metre - and is zero when the "
     "record has no level text; a level text is F or A with three digits or S or M with four. In an accepted field every "
     "flight level (F) given ends in 0 or 5, and only an element with an F level that does not is reported for it.",
     ["inputs"], "all fields; all level values and level kinds, as first level, cruise-climb target and inherited level",
     "22,000 level values x 2 roles x propagation paths; tests check about a dozen.",
     [P, K], [("assign_altitude", P), ("carry_speed_altitude_rules_forward", P), ("Constants.FEET_TO_METERS", K)],
     ["ExtractedRouteRecord.get_altitude/get_altitude_si/get_altitude_cruise_to/_si", "ExtractedRouteSequence.get_all_errors"])
prop("C05", "Each speed in a record is the speed text converted to metres per second",
     "In every route record the SI speed is the speed text of that record converted to metres per second and rounded to the "
     "nearest whole number: N is knots (0.514444), K is km/h (0.2777778), and M is hundredths of Mach times the speed of sound "
     "at the record's level (331.15*sqrt(T/273.15 K) m/s with T falling from 15 C by 0.00645 C per metre up to 11000 m and "
     "constant above; 343 m/s when the level is 0 m). It is zero when the record has no speed text.",
     ["inputs"], "all fields; all speed values and units x all levels",
     "10,000 speeds per unit and Mach x level combinations; tests check a handful.",
     [P, U, K], [("assign_speed", P), ("Utils.mach_to_ms_speed", U), ("Utils.speed_of_sound_at_altitude", U)],
     ["ExtractedRouteRecord.get_speed/get_speed_si"])
prop("C06", "Lat/long points are decoded exactly and every out-of-range value is reported",
     "Every route record of a latitude/longitude point carries the signed decimal coordinates its text denotes (N, E positive), "
     "projected along the WGS84 geodesic by bearing and distance in nautical miles when the text has them, and is marked as "
     "having coordinates; no other record has coordinates. For such a point, and for the bearing of any bearing/distance point, "
     "an error is reported exactly for: latitude over 90 degrees, longitude over 180 degrees, minutes over 59, bearing over 360.",
     ["inputs"], "all fields; all coordinate texts in every role a point can play (plain, cruise climb, rule change)",
     "10^9 coordinate texts and several code paths that create points; tests check a few coordinates.",
     [P, U], [("assign_ll_deg, assign_ll_deg_min", P), ("assign_latitude, assign_longitude", P), ("resolve_real_bd_point", P),
              ("Utils.is_degree_semantics, is_degree_minute_semantics", U)],
     ["ExtractedRouteRecord.get_latitude/get_longitude/is_lat_long_valid", "ExtractedRouteSequence.get_all_errors"])
prop("C07", "Azimuth and distance link exactly the consecutive located points",
     "A route record carries the WGS84 azimuth and distance in metres from itself to the next located point when both have "
     "coordinates and are adjacent or separated by exactly one record that is not a point; every other record carries zero for "
     "both. The values always agree with the final coordinates of the two records.",
     ["inputs"], "all fields: all placements of located points, connectors, breaks and errors",
     "Depends on the arrangement of records over the whole route; tests try a few pairs.",
     [P, U], [("assign_azimuth_distance_between_points", P), ("set_azimuth_and_distance", P),
              ("Utils.get_bearing_distance_between_points", U)],
     ["ExtractedRouteRecord.get_bearing/get_distance"])
prop("C08", "Tokenizing, parsing and XML output never raise and always end",
     "For every text of at most 200 elements, whatever its characters and however malformed, tokenizing it with the field 15 "
     "delimiters, parsing the tokens and producing the XML terminate normally: no exception escapes.",
     ["inputs"], "all texts of at most 200 elements",
     "The claim is about the absence of any failing input; tests run about 150 fields.",
     [P, S, R, TZ, TS, D, U], [("re_sync_parser_after_error and all grammar nodes", P), ("ErrorMessages.error_messages lookups", E)],
     ["ParseF15.parse_f15", "ExtractedRouteSequence.as_xml"])
prop("C09", "The result is always framed by ADEP and ADES and the verdict equals no errors",
     "After every parse the route sequence starts with exactly one artificial ADEP record and ends with exactly one artificial "
     "ADES record, both aerodrome points at position 0, the ADES carrying the flight rules of the record before it; the parse "
     "result is True exactly when no error was recorded. An empty field gives just these two records and one 'Field 15 is empty' "
     "error; an accepted field starts with a SPEED/LEVEL or SPEED/VFR and a lone SPEED/LEVEL is not accepted.",
     ["inputs"], "all texts", "All inputs; the tests assert this frame on the sampled fields only.",
     [P, S], [("parse_f15", P), ("add_dummy_adep_ades", S)],
     ["ParseF15.parse_f15 return value", "ExtractedRouteSequence.get_all_elements/get_all_errors"])
prop("C10", "Every record is a real element of the field, in source order, at most once",
     "Every route record other than ADEP and ADES carries the exact text and the start and end index of one element of the "
     "input field (the text 'VFR' for a SPEED/VFR element). Record positions strictly increase, so records are in source order "
     "and no element is recorded twice - also after errors.",
     ["inputs"], "all texts, accepted or not",
     "Order and uniqueness after arbitrary error recovery cannot be sampled.",
     [P, S], [("add_record", P), ("append_element", S), ("error re-synchronisation", P)],
     ["ExtractedRouteRecord.get_name/get_start_index/get_end_index"])
prop("C11", "No route element is silently dropped",
     "Every point, ATS route, DCT, SID, STAR, SPEED/VFR, break start (VFR, OAT, IFPSTOP), unrecognised or over-long element of the "
     "field appears in a route record, in the break text of one, or in an error record. In an accepted field every other element "
     "has its effect too: a level change, stay time, '/' or C only stands where the grammar uses it, a rule-change end only ends a "
     "break section and T only ends the field.",
     ["inputs"], "all texts, in particular every element after an error",
     "Needs every combination of error position and following elements; tests check expected records of sampled fields.",
     [P], [("re_sync_parser_after_error", P), ("every grammar node's consumption of tokens", P), ("break_text_save", P)],
     ["records, break texts and errors against the tokens of the field"])
prop("C12", "Every record of an accepted route carries the speed and level in force there",
     "In an accepted field every record carries the speed and level texts of the latest change at or before it: a SPEED/LEVEL "
     "(or cruise climb) applies from the point it follows (ADEP for the first), a SPEED/VFR from the point before it at F050, and "
     "they are carried forward until the next change; ADES carries none. The cruise climb target stands exactly on the point it "
     "was given for.",
     ["inputs"], "all accepted fields, of any length", "Propagation along arbitrarily long routes with arbitrary changes; tests sample.",
     [P], [("carry_speed_altitude_rules_forward", P), ("assign_speed_altitude*", P), ("assign_speed_vfr", P)],
     ["ExtractedRouteRecord.get_speed/get_altitude/get_altitude_cruise_to"])
prop("C13", "Flight rules are right on every record and the derived rules summarise them",
     "In an accepted field break records carry the rules of their break (VFR, OAT, IFPS), ADES those of the record before it, "
     "ADEP VFR exactly if the field starts with SPEED/VFR, and all others IFR. For every non-empty field the derived rules are "
     "V or Z if the ADEP is VFR, else I or Y, with Z exactly if some record is IFR and Y exactly if some record is VFR.",
     ["inputs"], "all texts (derived rules), all accepted texts (rules per record)",
     "Existential over all records of all routes and all rule-change histories.",
     [P], [("parse_f15 derived rules loops", P), ("break_start, v_to_i_rule_change, v_to_i_to_v_rule_change", P), ("break_end", P)],
     ["ExtractedRouteRecord.get_flight_rules", "ExtractedRouteSequence.get_derived_flight_rules"])
prop("C14", "Break text is exactly the elements between a break and its end",
     "In an accepted field the break text of a VFR, OAT, IFPSTOP or SPEED/VFR record is exactly the texts of the elements between "
     "it and the next record, in order and separated by single spaces; no other record has break text. When errors were reported "
     "the break text is still a leading part of that sequence.",
     ["inputs"], "all texts; break sections of any length and content",
     "Break sections may hold any elements, including look-alike break ends; tests sample a few.",
     [P, R], [("break_text_save, break_end", P), ("append_break_text", R)], ["ExtractedRouteRecord.get_break_text"])
prop("C15", "An accepted field is a structurally valid route",
     "In an accepted field consecutive records only follow one another as the route grammar allows: DCT, ATS routes and break "
     "sections are followed by a point, ATS routes are never adjacent to one another or to a lat/long or bearing/distance point, "
     "a SID only follows ADEP, and nothing follows a STAR but ADES. Outside break text there are no unknown or over-long elements "
     "and nothing after a truncation T.",
     ["inputs"], "all accepted fields", "The set of accepted fields is infinite; tests assert acceptance and rejection of samples.",
     [P], [("match statements of all grammar nodes", P), ("cruise_climb_point, route, post_point lat/long checks", P)],
     ["sequence of get_base_type/get_sub_type in accepted fields"])
prop("C16", "Parsing is pure: nothing but the given route sequence and types change",
     "The result of parsing a field depends only on its text: it is the same for every earlier history of parses, with new or "
     "reused parser and tokenizer objects, and earlier results and token lists are not affected by later ones. Parsing never "
     "changes the text or positions of the tokens, and no shared class or module data is modified.",
     ["histories", "inputs"], "all sequences of parses in one process",
     "Histories are unbounded; tests never compare one parse with another.",
     [P, S, R, TZ, TS, TK, D, E], [("mutable class attributes shadowed in __init__", S), ("copy of the SPEED/VFR token", P),
                                   ("Tokenize.tokenize creates a new list", TZ)],
     ["repeated and interleaved parses"])
prop("C17", "The XML output is well formed and carries every field of every record",
     "For every field of XML-representable characters, the XML of a parsed route is well formed and reads back as exactly the "
     "derived flight rules, all route records and, if any, all error records, in order, each with all its attributes and its text "
     "unchanged (numbers with two decimals where real).",
     ["inputs"], "all fields whose characters XML can represent",
     "Any text, including markup characters and quotes, may appear in names and messages; tests compare two documents.",
     [S, R], [("ExtractedRouteSequence.as_xml", S), ("ExtractedRouteRecord.as_xml escaping", R)],
     ["ExtractedRouteSequence.as_xml"])
prop("C18", "Every error names a real element of the field with a catalogue message",
     "Every error record of a non-empty field carries exact text, start and end index and type of one element of the field, and "
     "its message is one of the catalogue messages with the placeholder replaced by that element's text.",
     ["inputs"], "all non-empty fields", "About 100 error sites with different element arguments; tests trigger some of them.",
     [P, S, E], [("add_error_no_re_sync", P), ("add_error", S), ("ErrorMessages.error_messages", E)],
     ["ExtractedRouteSequence.get_all_errors"])
prop("C19", "Stay times are the given HHMM in minutes, on exactly the point they follow",
     "In an accepted field a record carries, in minutes, the stay time STAYn/HHMM given between it and the next record, and zero if "
     "there is none. In every field stay times lie between 0 and 1439.",
     ["inputs"], "all fields; all times", "1440 times x all routes; tests check a few.",
     [P, R], [("stay, stay_time", P), ("set_stay_time", R)], ["ExtractedRouteRecord.get_stay_time"])
prop("C20", "Positional access to a route sequence is exact and total",
     "For every route sequence and every integer position, asking for the element at that position returns exactly that record, and "
     "None when the position is negative or past the end, without raising. First, last and previous-to-last agree with the list of "
     "all records, the counts with the lengths of the lists, and appending an element makes it the last.",
     ["inputs", "histories"], "all route sequences x all integer positions",
     "All indices and lengths; tests never ask past the end.",
     [S], [("get_element_at bounds check", S), ("get_last_element, get_previous_to_last_element", S)],
     ["ExtractedRouteSequence.get_element_at/get_first_element/get_last_element/get_previous_to_last_element"])
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in L))
