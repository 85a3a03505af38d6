"""Runs the real code in /repo through its public API and records what a user can observe."""
import sys

sys.dont_write_bytecode = True
from F15_Parser.F15Parse import ParseF15                                    # noqa: E402
from F15_Parser.ExtractedRouteSequence import ExtractedRouteSequence        # noqa: E402
from F15_Parser.F15TokenSyntaxDescriptions import TokenBaseType, TokenSubType  # noqa: E402
from F15_Parser.ErrorMessageDefinitions import ErrorMessages                # noqa: E402
from Tokenizer.Tokenize import Tokenize                                     # noqa: E402

WS = " \n\t\r/"


def bname(x):
    try:
        return TokenBaseType(x).name[4:]
    except Exception:
        return repr(x)


def sname(x):
    try:
        return TokenSubType(x).name[7:]
    except Exception:
        return repr(x)


_bn = {int(b): b.name[4:] for b in TokenBaseType}
_sn = {int(b): b.name[7:] for b in TokenSubType}


class Rec:
    __slots__ = ("name", "start", "end", "base", "sub", "alt", "alt_si", "speed", "speed_si", "brk", "rules",
                 "err", "stay", "cto", "cto_si", "lat", "lon", "bearing", "dist", "valid")

    def __init__(self, r):
        self.name = r.get_name()
        self.start = r.get_start_index()
        self.end = r.get_end_index()
        b, s = r.get_base_type(), r.get_sub_type()
        self.base = _bn.get(b) or bname(b)
        self.sub = _sn.get(s) or sname(s)
        self.alt = r.get_altitude()
        self.alt_si = r.get_altitude_si()
        self.speed = r.get_speed()
        self.speed_si = r.get_speed_si()
        self.brk = r.get_break_text()
        self.rules = r.get_flight_rules()
        self.err = r.get_error_text()
        self.stay = r.get_stay_time()
        self.cto = r.get_altitude_cruise_to()
        self.cto_si = r.get_altitude_cruise_to_si()
        self.lat = r.get_latitude()
        self.lon = r.get_longitude()
        self.bearing = r.get_bearing()
        self.dist = r.get_distance()
        self.valid = r.is_lat_long_valid()

    def asdict(self):
        return {k: getattr(self, k) for k in self.__slots__}


class Obs:
    __slots__ = ("text", "toks", "recs", "errs", "verdict", "derived", "exc", "ers", "tokens")


def make_tokens(text, ws=WS):
    t = Tokenize()
    t.set_whitespace(ws)
    t.set_string_to_tokenize(text)
    t.tokenize()
    return t.get_tokens()


def observe(text):
    o = Obs()
    o.text = text
    o.exc = None
    o.recs = o.errs = o.toks = None
    o.verdict = o.derived = o.ers = o.tokens = None
    try:
        tokens = make_tokens(text)
        ers = ExtractedRouteSequence()
        o.ers, o.tokens = ers, tokens
        o.verdict = ParseF15().parse_f15(ers, tokens)
        o.toks = [(t.get_token_string(), t.get_token_start_index(), t.get_token_end_index(),
                   _bn.get(t.get_token_base_type()) or bname(t.get_token_base_type()),
                   _sn.get(t.get_token_sub_type()) or sname(t.get_token_sub_type())) for t in tokens.get_tokens()]
        o.recs = [Rec(r) for r in ers.get_all_elements()]
        o.errs = [Rec(r) for r in ers.get_all_errors()]
        o.derived = ers.get_derived_flight_rules()
    except RecursionError as e:
        o.exc = "RecursionError: %s" % e
    except Exception as e:                                     # noqa: BLE001
        o.exc = "%s: %s" % (type(e).__name__, e)
    return o


CATALOGUE = dict(ErrorMessages.error_messages)
