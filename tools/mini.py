"""Small filings for the demonstrations: everything is written to a scratch folder that is removed at exit."""
import atexit, os, shutil, sys, tempfile, warnings

warnings.simplefilter("ignore")
D = tempfile.mkdtemp(prefix="demo.")
atexit.register(shutil.rmtree, D, True)
os.environ["HOME"] = D
OUT = os.dup(1)
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)

NS = ('xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:xbrli="http://www.xbrl.org/2003/instance" '
      'xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:xlink="http://www.w3.org/1999/xlink" '
      'xmlns:xbrldi="http://xbrl.org/2006/xbrldi" xmlns:xbrldt="http://xbrl.org/2005/xbrldt" '
      'xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xmlns:iso4217="http://www.xbrl.org/2003/iso4217" '
      'xmlns:ex="http://ex.org/t" ')
IX = ('xmlns="http://www.w3.org/1999/xhtml" xmlns:ix="http://www.xbrl.org/2013/inlineXBRL" '
      'xmlns:ixt="http://www.xbrl.org/inlineXBRL/transformation/2020-02-12" ')
ARCROLE = {"presentation": "http://www.xbrl.org/2003/arcrole/parent-child", "calculation": "http://www.xbrl.org/2003/arcrole/summation-item",
           "definition": "http://xbrl.org/int/dim/arcrole/domain-member", "label": "http://www.xbrl.org/2003/arcrole/concept-label",
           "reference": "http://www.xbrl.org/2003/arcrole/concept-reference", "footnote": "http://www.xbrl.org/2003/arcrole/fact-footnote"}
LABEL = "http://www.xbrl.org/2003/role/label"


def concept(n, type="xbrli:monetaryItemType", period="instant", **k):
    more = "".join(f' {a.replace("__", ":")}="{v}"' for a, v in k.items())
    return (f'<xs:element name="{n}" id="ex_{n}" type="{type}" substitutionGroup="xbrli:item" nillable="true" '
            f'xbrli:periodType="{period}"{more}/>')


def axis(n, typed=None):
    t = f' xbrldt:typedDomainRef="#{typed}"' if typed else ""
    return f'<xs:element name="{n}" id="ex_{n}" type="xbrli:stringItemType" substitutionGroup="xbrldt:dimensionItem" abstract="true" nillable="true" xbrli:periodType="duration"{t}/>'


def member(n):
    return f'<xs:element name="{n}" id="ex_{n}" type="xbrli:domainItemType" substitutionGroup="xbrli:item" abstract="true" nillable="true" xbrli:periodType="duration"/>'


def role(uri, definition="d"):
    return f'<link:roleType roleURI="{uri}" id="r{abs(hash(uri)) % 9999}"><link:definition>{definition}</link:definition><link:usedOn>link:presentationLink</link:usedOn></link:roleType>'


def schema(body, app="", ns="http://ex.org/t", top=""):
    return f'<xs:schema {NS} targetNamespace="{ns}"><xs:annotation><xs:appinfo>{app}</xs:appinfo></xs:annotation>{top}{body}</xs:schema>'


def lbref(*names):
    return "".join(f'<link:linkbaseRef xlink:type="simple" xlink:href="{n}" xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase"/>' for n in names)


def linkbase(*links):
    return f"<link:linkbase {NS}>{''.join(links)}</link:linkbase>"


def loc(label, href=None):
    return f'<link:loc xlink:type="locator" xlink:label="{label}" xlink:href="{href or "s.xsd#ex_" + label}"/>'


def arc(kind, a, b, arcrole=None, **k):
    more = "".join(f' {x}="{v}"' for x, v in k.items())
    return f'<link:{kind}Arc xlink:type="arc" xlink:arcrole="{arcrole or ARCROLE[kind]}" xlink:from="{a}" xlink:to="{b}"{more}/>'


def link(kind, role_, *body):
    return f'<link:{kind}Link xlink:type="extended" xlink:role="{role_}">{"".join(body)}</link:{kind}Link>'


def context(i, period="2020-12-31", dims="", scheme="http://s", ident="1"):
    p = f"<xbrli:instant>{period}</xbrli:instant>" if isinstance(period, str) else f"<xbrli:startDate>{period[0]}</xbrli:startDate><xbrli:endDate>{period[1]}</xbrli:endDate>"
    d = f"<xbrli:segment>{dims}</xbrli:segment>" if dims else ""
    return f'<xbrli:context id="{i}"><xbrli:entity><xbrli:identifier scheme="{scheme}">{ident}</xbrli:identifier>{d}</xbrli:entity><xbrli:period>{p}</xbrli:period></xbrli:context>'


def explicit(d, m):
    return f'<xbrldi:explicitMember dimension="{d}">{m}</xbrldi:explicitMember>'


def unit(i, m="iso4217:USD"):
    return f'<xbrli:unit id="{i}"><xbrli:measure>{m}</xbrli:measure></xbrli:unit>'


def instance(body, ref="s.xsd"):
    return f'<xbrli:xbrl {NS}><link:schemaRef xlink:type="simple" xlink:href="{ref}"/>{body}</xbrli:xbrl>'


def html(body, header="", ref="s.xsd"):
    return (f'<html {NS} {IX}><body><div style="display:none"><ix:header><ix:references><link:schemaRef xlink:type="simple" xlink:href="{ref}"/>'
            f'</ix:references><ix:resources>{header}</ix:resources></ix:header></div>{body}</body></html>')


def put(files, sub="f"):
    d = os.path.join(D, sub)
    os.makedirs(d, exist_ok=True)
    for n, t in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as f:
            f.write(t)
    return d


def open_filing(files, main=None, sub="f"):
    from brel import Filing
    d = put(files, sub)
    return Filing.open(os.path.join(d, main) if main else d)


def expect(got, want, what=""):
    if got != want:
        os.write(OUT, f"FAIL {what}: got {got!r}, expected {want!r}\n".encode())
        shutil.rmtree(D, True)
        os._exit(1)


def serve(pages):
    """A local HTTP server: returns its address and the list of paths asked for."""
    import threading
    from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
    log = []

    class H(BaseHTTPRequestHandler):
        def do_GET(self):
            log.append(self.path)
            body = pages.get(self.path)
            self.send_response(404 if body is None else 200)
            body = (body or "").encode()
            self.send_header("Content-Length", str(len(body)))
            self.end_headers()
            self.wfile.write(body)

        def log_message(self, *a):
            pass
    s = ThreadingHTTPServer(("127.0.0.1", 0), H)
    threading.Thread(target=s.serve_forever, daemon=True).start()
    for k in ("http_proxy", "HTTP_PROXY"):
        os.environ.pop(k, None)
    return "http://127.0.0.1:%d" % s.server_address[1], log


def imports(*refs):
    return "".join(f'<xs:import namespace="http://ex.org/other" schemaLocation="{r}"/>' for r in refs)


def names(f):
    return sorted(str(e.get_name().get_local_name()) for e in f.get_all_report_elements())
