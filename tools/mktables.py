"""Writes spec/tables.json: month names, scripts, format names and the shapes of date formats (the data of Formats.tla and Dates.tla).

The names are those of the XBRL International transformation registries 1 to 5."""
import json, os

M = {
 "bg": "ян фев мар апр май,маи юни юли авг сеп окт ное дек",
 "cs": "ledna,led února,unora,úno,uno března,brezna,bře,bre dubna,dub května,kvetna,kvě,kve června,cervna,čvn,cvn července,cervence,čvc,cvc srpna,srp září,zari,zář,zar října,rijna,říj,rij listopadu,lis prosince,pro",
 "cs-nom": "leden,ledna,lednu,led únor,unor,února,unora,úno,uno březen,brezen,března,brezna,bře,bre duben,dubna,dubnu,dub květen,kveten,května,kvetna,kvě,kve červen,cerven,června,cervna,čvn,cvn červenec,cervenec,července,cervence,čvc,cvc srpen,srpna,srpnu,srp září,zari,zář,zar říjen,rijen,října,rijna,říj,rij listopad,listopadu,lis prosinec,prosince,prosinci,pro",
 "cy": "ion chwe maw ebr mai meh gor aws med hyd tach rhag",
 "cy-nom": "ion chwe maw,faw ebr mai,fai meh,feh gor,ngor aws med,fed hyd tach,dach,nhach,thach rhag,rag",
 "da": "jan feb mar apr maj jun jul aug sep okt nov dec",
 "de": "jan,jän,jaen feb mär,maer,mar apr mai jun jul aug sep okt nov dez",
 "el": "ιαν,ίαν φεβ μάρ,μαρ απρ,άπρ,αρίλ,αριλ μαι,μάι,μαϊ,μαΐ ιούν,ιουν ιούλ,ιουλ αύγ,αυγ σεπ οκτ,όκτ νοέ,νοε δεκ",
 "en": "january,jan february,feb march,mar april,apr may june,jun july,jul august,aug september,sep october,oct november,nov december,dec",
 "es": "ene feb mar abr may jun jul ago sep oct nov dic",
 "et": "jaan veebr märts,marts apr mai juuni juuli aug sept okt nov dets",
 "fi": "tam hel maa huh tou kes hei elo syy lok mar jou",
 "fr": "janv févr,fevr mars avr mai juin juil août,aout sept oct nov déc,dec",
 "hr": "sij velj ožu,ozu tra svi lip srp kol ruj lis stu pro",
 "it": "gen feb mar apr mag giu lug ago set ott nov dic",
 "nl": "jan feb maa,mrt apr mei jun jul aug sep okt nov dec",
 "hu": "jan feb márc,marc ápr,apr máj,maj jún,jun júl,jul aug szept okt nov dec",
 "lt": "sau vas kov bal geg bir lie rugp,rgp rugs,rgs spa,spl lap gru,grd",
 "lv": "janv febr marts apr maijs jūn,jun jūl,jul aug sept okt nov dec",
 "no": "jan feb mar apr mai jun jul aug sep okt nov des",
 "pl": "sty lut mar kwi maj cze lip sie wrz paź,paz lis gru",
 "pt": "jan fev mar abr mai jun jul ago set out nov dez",
 "ro": "ian feb mar apr mai iun iul aug sep oct noi,nov dec",
 "sk": "jan feb mar apr máj,maj jún,jun júl,jul aug sep okt nov dec",
 "sl": "jan feb mar apr maj jun jul avg sep okt nov dec",
 "sv": "jan feb mar apr maj jun jul aug sep okt nov dec",
 "hi": "जनवरी फरवरी मार्च अप्रैल मई जून जुलाई अगस्त सितंबर अक्टूबर नवंबर दिसंबर",
 "saka": "चैत्र वैशाख,बैसाख ज्येष्ठ आषाढ श्रावण,सावन भाद्रपद,भादो आश्विन कार्तिक मार्गशीर्ष,अगहन पौष माघ फाल्गुन",
}
# full names whose abbreviation is listed above: what may follow the abbreviation
LONG = {
 "bg": "януари февруари март април май юни юли август септември октомври ноември декември",
 "da": "januar februar marts april maj juni juli august september oktober november december",
 "de": "januar februar märz april mai juni juli august september oktober november dezember",
 "el": "ιανουαρίου φεβρουαρίου μαρτίου απριλίου μαΐου ιουνίου ιουλίου αυγούστου σεπτεμβρίου οκτωβρίου νοεμβρίου δεκεμβρίου",
 "es": "enero febrero marzo abril mayo junio julio agosto septiembre octubre noviembre diciembre",
 "fr": "janvier février mars avril mai juin juillet août septembre octobre novembre décembre",
 "hr": "siječanj veljača ožujak travanj svibanj lipanj srpanj kolovoz rujan listopad studeni prosinac",
 "it": "gennaio febbraio marzo aprile maggio giugno luglio agosto settembre ottobre novembre dicembre",
 "nl": "januari februari maart april mei juni juli augustus september oktober november december",
 "hu": "január február március április május június július augusztus szeptember október november december",
 "lv": "janvāris februāris marts aprīlis maijs jūnijs jūlijs augusts septembris oktobris novembris decembris",
 "lt": "sausio vasario kovo balandžio gegužės birželio liepos rugpjūčio rugsėjo spalio lapkričio gruodžio",
 "no": "januar februar mars april mai juni juli august september oktober november desember",
 "pl": "stycznia lutego marca kwietnia maja czerwca lipca sierpnia września października listopada grudnia",
 "pt": "janeiro fevereiro março abril maio junho julho agosto setembro outubro novembro dezembro",
 "ro": "ianuarie februarie martie aprilie mai iunie iulie august septembrie octombrie noiembrie decembrie",
 "sk": "januára februára marca apríla mája júna júla augusta septembra októbra novembra decembra",
 "sl": "januar februar marec april maj junij julij avgust september oktober november december",
 "sv": "januari februari mars april maj juni juli augusti september oktober november december",
 "fi": "tammikuuta helmikuuta maaliskuuta huhtikuuta toukokuuta kesäkuuta heinäkuuta elokuuta syyskuuta lokakuuta marraskuuta joulukuuta",
 "et": "jaanuar veebruar märts aprill mai juuni juuli august september oktoober november detsember",
 "cy": "ionawr chwefror mawrth ebrill mai mehefin gorffennaf awst medi hydref tachwedd rhagfyr",
}


def variants(name):
    out = []
    for v in (name, name.upper(), name[:1].upper() + name[1:]):
        if v not in out and len(v) == len(name):
            out.append(v)
    return out


# forms that the registries do not list
UNLISTED = {"ΑΡΊΛ"}
months = {}
for lang, names in M.items():
    rows = [r.split(",") for r in names.split()]
    assert len(rows) == 12, lang
    months[lang] = [[v for n in r for v in variants(n) if v not in UNLISTED and not (lang == "en" and v.islower())] for r in rows]
months["roman"] = [[x, x.upper()] for x in "i ii iii iv v vi vii viii ix x xi xii".split()]
longs = {l: [variants(n) for n in s.split()] for l, s in LONG.items()}
assert all(len(x) == 12 for x in longs.values())

F = {}


def fmt(name, order, month="num", digits="ascii"):
    F["ixt:" + name] = {"order": order.split(), "month": month, "digits": digits}


fmt("date-day-month", "day month")
fmt("date-month-day", "month day")
fmt("date-day-month-year", "day month year", digits="deva")
fmt("date-month-day-year", "month day year")
fmt("date-year-month-day", "year month day", digits="full")
fmt("date-year-month", "year month", digits="full")
fmt("date-month-year", "month year", digits="deva")
for l in "bg cs cy da de el en es et fi fr hr it nl no pl pt ro sk sl sv".split():
    nom = l + "-nom" if l in ("cs", "cy") else l
    fmt("date-day-monthname-" + l, "day month", l)
    fmt("date-day-monthname-year-" + l, "day month year", l)
    fmt("date-monthname-year-" + l, "month year", nom)
fmt("date-monthname-day-en", "month day", "en")
fmt("date-monthname-day-year-en", "month day year", "en")
fmt("date-year-monthname-en", "year month", "en")
for l in ("hu", "lt"):
    fmt("date-monthname-day-" + l, "month day", l)
    fmt("date-year-monthname-day-" + l, "year month day", l)
    fmt("date-year-monthname-" + l, "year month", l)
fmt("date-day-monthname-lv", "day month", "lv")
fmt("date-year-day-monthname-lv", "year day month", "lv")
fmt("date-year-monthname-lv", "year month", "lv")
fmt("date-day-monthroman", "day month", "roman")
fmt("date-day-monthroman-year", "day month year", "roman")
fmt("date-monthroman-year", "month year", "roman")
fmt("date-day-monthname-year-hi", "day month year", "hi", "deva")
fmt("date-monthname-year-hi", "month year", "hi", "deva")
fmt("date-ind-day-monthname-year-hi", "day month year", "saka", "deva")
fmt("date-jpn-era-year-month-day", "era year month day", digits="full")
fmt("date-jpn-era-year-month", "era year month", digits="full")

legacy = {
 "booleanfalse": "fixed-false", "booleantrue": "fixed-true", "nocontent": "fixed-empty", "zerodash": "fixed-zero", "numdash": "fixed-zero",
 "numcommadecimal": "num-comma-decimal", "numdotdecimal": "num-dot-decimal", "numdotdecimalin": "num-dot-decimal", "numunitdecimal": "num-unit-decimal",
 "numunitdecimalin": "num-unit-decimal", "numcomma": "num-comma-decimal", "numcommadot": "num-dot-decimal", "numdotcomma": "num-comma-decimal",
 "numspacecomma": "num-comma-decimal", "numspacedot": "num-dot-decimal",
 "calindaymonthyear": "date-ind-day-monthname-year-hi", "datedaymonth": "date-day-month", "datedaymonthdk": "date-day-monthname-da",
 "datedaymonthen": "date-day-monthname-en", "datedaymonthyear": "date-day-month-year", "datedaymonthyeardk": "date-day-monthname-year-da",
 "datedaymonthyearen": "date-day-monthname-year-en", "dateerayearmonthdayjp": "date-jpn-era-year-month-day", "dateerayearmonthjp": "date-jpn-era-year-month",
 "datemonthday": "date-month-day", "datemonthdayen": "date-monthname-day-en", "datemonthdayyear": "date-month-day-year",
 "datemonthdayyearen": "date-monthname-day-year-en", "datemonthyear": "date-month-year", "datemonthyeardk": "date-monthname-year-da",
 "datemonthyearen": "date-monthname-year-en", "datemonthyearin": "date-monthname-year-hi", "dateyearmonthday": "date-year-month-day",
 "dateyearmonthdaycjk": "date-year-month-day", "dateyearmonthcjk": "date-year-month", "dateyearmonthen": "date-year-monthname-en",
 "datedoteu": "date-day-month-year", "datedotus": "date-month-day-year", "datelonguk": "date-day-monthname-year-en",
 "datelongus": "date-monthname-day-year-en", "dateshortuk": "date-day-monthname-year-en", "dateshortus": "date-monthname-day-year-en",
 "dateslasheu": "date-day-month-year", "dateslashus": "date-month-day-year", "datelongdaymonthuk": "date-day-monthname-en",
 "datelongmonthdayus": "date-monthname-day-en", "dateshortdaymonthuk": "date-day-monthname-en", "dateshortmonthdayus": "date-monthname-day-en",
 "dateslashdaymontheu": "date-day-month", "dateslashmonthdayus": "date-month-day", "datelongyearmonth": "date-year-monthname-en",
 "dateshortyearmonth": "date-year-monthname-en", "datelongmonthyear": "date-monthname-year-en", "dateshortmonthyear": "date-monthname-year-en",
}
eras = {"明治": 1868, "明": 1868, "大正": 1912, "大": 1912, "昭和": 1926, "昭": 1926, "平成": 1989, "平": 1989, "令和": 2019, "令": 2019}
# the days on which an era begins and ends
limits = {1868: [18681023, 19120729], 1912: [19120730, 19261224], 1926: [19261225, 19890107], 1989: [19890108, 20190430], 2019: [20190501, 99991231]}
out = {
 "chars": {"nbsp": "\u00a0", "acute": "\u00b4", "rightquote": "\u2019", "prime": "\u2032", "widecomma": "\uff0c", "wideapos": "\uff07"},
 "digits": {"full": {chr(0xff10 + i): str(i) for i in range(10)}, "deva": {chr(0x966 + i): str(i) for i in range(10)}},
 "months": months, "longs": longs, "dates": F, "legacy": {"ixt:" + k: "ixt:" + v for k, v in legacy.items()},
 "eras": {k: {"start": v, "from": limits[v][0], "to": limits[v][1]} for k, v in eras.items()},
 "kanji": {"first": "元", "year": "年", "month": "月", "day": "日"},
}
w = lambda *ns: ["%s-INI-%03d" % (x, n) for n in ns for x in "EW"]
# the error codes that report each kind of fault of an inline filing
out["codes"] = {
 "name": w(503), "concept": w(504), "context": w(500), "nocontext": w(501), "unit": w(505), "nounit": w(502), "contid": w(540),
 "unused": w(544), "dangling": w(542), "contested": w(541), "noteid": w(550), "from": w(563), "to": w(564),
 "dec": ["W-ING-018", "E-ING-018"], "prec": ["W-ING-017", "E-ING-017"], "both": w(506), "scale": w(622), "sign": w(510), "esc": w(530),
 "niltext": w(508), "empty": w(509), "textkids": w(507), "manykids": w(511), "kidkind": w(512), "kidattrs": w(516), "kidnil": w(515),
 "noterole": w(551), "notelang": w(552), "dupid": w(1), "nofrom": w(560), "noto": w(561), "repeated": w(562), "mixed": w(565),
 "arcrole": w(566), "linkrole": w(567), "order": w(568),
 "headerchild": w(101), "hiddens": w(102), "manyresources": w(103), "hiddenchild": w(400), "tuple": w(2), "resourceschild": w(301),
 "referenceschild": w(201), "emptyreferences": w(200), "roletype": ["E-LNK-100", "W-LNK-100"], "norolehref": ["E-LNK-101", "W-LNK-101"],
 "noarcroleuri": ["E-LNK-103", "W-LNK-103"], "arcroleuri": ["E-LNK-104", "W-LNK-104"], "rolehref": ["E-LNK-102", "W-LNK-102"], "noroleuri": ["E-LNK-103", "W-LNK-103"], "roleuri": ["E-LNK-104", "W-LNK-104"],
 "nestedchain": w(543), "headinhead": w(100), "idlesscontext": w(360), "idlessunit": w(380), "noheader": w(104), "noresources": w(300),
 "emptyrole": ["E-LNK-105", "W-LNK-105"],
 "text": w(509, 513, 514, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 620, 621, 507, 512),
}
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "tables.json"), "w"), ensure_ascii=False, indent=0)
print(len(F), "date formats")
