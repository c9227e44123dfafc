"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
T = ("The stable tests never open a filing; the network-bound tests compare a few facts of a handful of "
     "downloaded reports, so the quantifier over inputs is not reached. ")

p("F01", "Every valid XML fact is reported exactly once with its exact value",
  "Opening an XML filing reports every element of its instances that has a contextRef, names a known concept and refers to an existing, well-formed context (and unit, if it has a unitRef) as exactly one fact, with or without an id, whose id, value, decimals and precision are those of that element. Nothing else is reported as a fact, and no fact is dropped, duplicated or altered because of the position, nesting, order or invalidity of other elements.",
  ["inputs"], "All instances: any number of facts, with and without ids, nil or empty values, repeated concept/context pairs, unknown concepts, dangling references, several instance files, any element order.",
  T, ["brel/parsers/XML/xml_facts_parser.py", "brel/data/fact/in_memory_fact_repository.py", "brel/brel_fact.py"],
  [("parse_facts_xml / parse_fact_from_xml", "brel/parsers/XML/xml_facts_parser.py"), ("fact repository", "brel/data/fact/in_memory_fact_repository.py")],
  ["Filing.get_all_facts", "Fact.get_id", "Fact.get_value_as_str"])

p("F02", "A fact carries exactly the aspects its context and unit declare",
  "Each reported fact carries the concept named by its element, the period (instant, or start and end) and entity (scheme and identifier) of the context it refers to, the unit it refers to if any (with the measures of its numerators and denominators), and one characteristic per explicit or typed dimension in the segment of that context with that member or typed value, and nothing else. What one context or unit says never leaks into the facts of another, and the prefixes used for taxonomy names never matter, only the namespaces they are bound to.",
  ["inputs"], "All contexts and units: instants, durations, every mix of dimensions in any order, one identifier under two schemes, shared sub-values, simple and divide units, any prefixes for any namespace.",
  T, ["brel/parsers/XML/xml_context_parser.py", "brel/parsers/XML/characteristics/", "brel/brel_context.py", "brel/characteristics/", "brel/qnames/qname.py"],
  [("parse_context_xml", "brel/parsers/XML/xml_context_parser.py"), ("parse_*_from_xml", "brel/parsers/XML/characteristics/"), ("Context", "brel/brel_context.py")],
  ["Fact.get_concept/get_period/get_unit/get_aspects/get_characteristic"])

p("F03", "Opening a filing loads exactly the documents reachable from its files",
  "Opening a filing reads every document reachable from the given files through schema locations and hrefs, each reference resolved relative to the document containing it and then through the catalog's URI rewrites, and reads nothing else. Each document is read once and contributes once however many references (cyclic ones and ones with fragments included) lead to it, discovery always terminates, and the order of files and references does not change what is found.",
  ["inputs", "configurations"], "All finite reference graphs over local and remote documents: chains, diamonds, cycles, self references, sub-directories, fragments, absolute and relative URLs, catalog rewrites, any entry files.",
  T, ["brel/services/xml/xml_service.py", "brel/parsers/XML/xml_parse_catalog.py", "brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py", "brel/contexts/factory.py", "brel/parsers/path_loaders/"],
  [("XMLService.add_etree_recursive", "brel/services/xml/xml_service.py"), ("rewrite", "brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py")],
  ["Filing.open", "Filing.get_all_report_elements", "requests seen by an HTTP server"])

p("F04", "The document cache never changes what a filing says",
  "A remote document is requested at most once over any sequence of openings by any processes sharing a cache directory, and later openings see the content first downloaded. Local documents are always read as they are on disk at the time of opening, and two different documents, local or remote, are never confused even if their file names or URLs look alike.",
  ["histories", "inputs"], "All histories of opening filings, editing local files and serving remote ones, over documents whose names agree in any part.",
  T + "No test opens two filings with documents of the same name or re-opens an edited one.",
  ["brel/services/file/file_service.py", "brel/services/xml/xml_service.py", "brel/data/file/pyfs_file_repository.py", "brel/parsers/utils/file_utils.py"],
  [("uri_to_filename", "brel/parsers/utils/file_utils.py"), ("FileService", "brel/services/file/file_service.py"), ("PyFsFileRepository", "brel/data/file/pyfs_file_repository.py")],
  ["Filing.open", "Filing.get_all_report_elements", "requests seen by an HTTP server"])

p("F05", "Schema declarations become report elements of the right kind",
  "Every global element declaration of a discovered schema appears as exactly one report element, named by the schema's target namespace and its own name, whatever prefixes the schema uses, and of the kind its abstractness, type and substitution group call for (concept, member, dimension, hypercube, line items, abstract); declarations that are none of these, or are invalid concepts, appear not at all. A concept reports its declared period type, balance, nillability and data type, and a dimension reports whether it is typed and with which type.",
  ["inputs"], "All schema sets: every combination of abstract, type, substitutionGroup, name, periodType, balance, nillable and typedDomainRef, in one or several files, in any order, under any prefixes, with equal local names in different namespaces, substitution groups of substitution groups across files, and declarations nested in types.",
  T, ["brel/parsers/XML/xml_report_element_parser.py", "brel/parsers/XML/xml_report_element_factory.py", "brel/reportelements/", "brel/data/report_element/"],
  [("XMLReportElementFactory.create", "brel/parsers/XML/xml_report_element_factory.py"), ("Concept._from_xml", "brel/reportelements/concept.py")],
  ["Filing.get_all_report_elements/get_all_concepts/..._dimensions/..._members", "Concept.get_period_type/get_balance_type/is_nillable/get_data_type", "Dimension.is_explicit/get_type"])

p("F06", "Networks reproduce the arcs of their extended links exactly",
  "Each extended link with at least one arc yields a network of its kind and role in which a report element or resource is a child of another exactly if an arc of the link relates their locators, carrying that arc's arcrole and, where given, its order, weight or preferred label role. Siblings are listed by ascending order value, roots are exactly the locators without incoming arcs, and the order of arcs, locators and attributes in the file does not matter.",
  ["inputs"], "All acyclic extended links (presentation, calculation, definition) over elements with distinct ids, with any number of roots, depth, incoming arcs (a node per incoming arc), order values including decimals, negative and fractional weights, several arcroles and several links per file.",
  T, ["brel/parsers/XML/networks/", "brel/networks/"],
  [("parse_xml_link", "brel/parsers/XML/networks/xml_extended_link_parser.py"), ("network factories", "brel/parsers/XML/networks/"), ("_add_child", "brel/networks/i_network_node.py")],
  ["Filing.get_component(uri).get_presentation/calculation/definition_network", "INetwork.get_roots/get_all_nodes/get_link_role/get_link_name", "INetworkNode.get_children/get_order/get_arc_role", "CalculationNetworkNode.get_weight", "PresentationNetworkNode.get_preferred_label_role"])

p("F07", "Extended links of the same role merge into one network",
  "All presentation, calculation or definition links that share a link role, in one or several linkbase files, appear as a single network of that kind and role that contains exactly the parent-child relations of all of them (identical relations once, relations that differ in order, weight, preferred label or arcrole each), wherever the parent occurs, and whose roots are the elements that are a child in none of the links. The result does not depend on which file is read first or which link comes first.",
  ["inputs", "schedules"], "All families of links of one role whose union is acyclic: disjoint trees, shared roots, one link extending an inner node or leaf of another, chains over three links, in any order and any distribution over files.",
  T + "File order is fixed in every test.",
  ["brel/parsers/utils/network_utils.py", "brel/parsers/XML/networks/xml_networks_parser.py"],
  [("combine_networks", "brel/parsers/utils/network_utils.py")], ["Filing.get_component(uri).get_*_network", "INetwork.get_roots", "INetworkNode.get_children"])

p("F08", "Each role type is one component holding exactly the networks of its role",
  "Every role type declared in the taxonomy appears as exactly one component with its role URI and definition text, and the component's presentation, calculation and definition networks are those built from the links of that role, or absent if there is none. Components can be found by their role URI, and a component says it has a network exactly if it does.",
  ["inputs"], "All sets of role types and links: roles with any subset of the three networks, with and without definition, links with no role type, role types in several files, any order.",
  T, ["brel/parsers/XML/xml_component_parser.py", "brel/brel_component.py", "brel/data/component/"],
  [("parse_components_xml", "brel/parsers/XML/xml_component_parser.py"), ("Component", "brel/brel_component.py")],
  ["Filing.get_all_components/get_component/get_all_component_uris", "Component.get_URI/get_info/get_*_network/has_*_network/get_networks"])

p("F09", "Labels, references and footnotes reach exactly the elements they annotate",
  "A report element has exactly the labels that label arcs connect to it, each with its text, language and role, whether a label is shared by several elements, an element has several labels of one role and language, or links and resources are spread over files. Reference and XML footnote resources are reachable from exactly the elements or facts their arcs start at, with all their parts, text, language and role; resources without arcs change nothing.",
  ["inputs"], "All label, reference and footnote links: many-to-many arcs, several links and files, equal xlink labels in different links, any languages and roles, unconnected resources, references with distinct part names.",
  T, ["brel/parsers/XML/networks/xml_label_network_factory.py", "brel/parsers/XML/networks/xml_reference_network_factory.py", "brel/parsers/XML/networks/xml_footnote_network_factory.py", "brel/parsers/XML/networks/xml_resource_parser.py", "brel/resource/"],
  [("LabelNetworkFactory.update_report_elements", "brel/parsers/XML/networks/xml_label_network_factory.py"), ("parse_xml_resource", "brel/parsers/XML/networks/xml_resource_parser.py")],
  ["IReportElement.get_labels", "Filing.get_all_physical_networks", "LabelNetworkNode/ReferenceNetworkNode/FootnoteNetworkNode.get_resource"])

p("F10", "Balance consistency holds exactly when no weight contradicts its balances",
  "A calculation network is balance consistent exactly if every parent-child relation in it joins two concepts that both have a balance, with a positive weight if the balances are equal (both credit or both debit) and a negative weight if they are opposite. Every relation at every depth and under every root counts.",
  ["inputs"], "All calculation networks with at least one relation: any shape and depth, any number of roots, any nonzero weights, any balances or none.",
  "The stable tests try four hand-built filings; they cannot reach all shapes, depths and sign combinations.",
  ["brel/networks/calculation_network.py", "brel/networks/calculation_network_node.py"],
  [("CalculationNetwork.is_balance_consistent", "brel/networks/calculation_network.py")], ["CalculationNetwork.is_balance_consistent"])

p("F11", "Aggregation consistency holds exactly when every total adds up",
  "A calculation network is aggregation consistent with a set of facts exactly if, for every concept in it with children and every reported value of that concept, the weighted sum of the children's values reported for the same period, entity, unit and dimensions equals that value. Facts of other contexts, units, dimensions or concepts play no part, every level of the network counts, decimal values are compared exactly, and where a child's value is missing, reported twice or not a number the question is refused.",
  ["inputs"], "All calculation networks and fact sets of a filing: any shape, contexts, weights, decimals and magnitudes.",
  "The stable tests try four hand-built filings with integers; they cannot reach all shapes, contexts, weights and decimals.",
  ["brel/networks/calculation_network.py"], [("CalculationNetwork.is_aggregation_consistent", "brel/networks/calculation_network.py")],
  ["CalculationNetwork.is_aggregation_consistent"])

p("F12", "Inline numbers are transformed to the exact number they display",
  "An inline numeric fact has the exact decimal value its displayed text denotes under its format (dot or comma decimals with any permitted grouping, zero dash and fixed zero, numbers with the format's unit separators), multiplied by ten to its scale and negated if it has a minus sign attribute. The result does not depend on the number of digits, leading or trailing zeros or white space, no binary rounding ever shows, and text that is not a number in its format is reported as an error.",
  ["inputs"], "All digit strings, groupings, formats, scales (negative, zero, positive), signs, and nestings of inline numeric elements (a negative zero counts as zero).",
  T, ["brel/parsers/XHMTL/elements/parse_non_fraction.py", "brel/parsers/XHMTL/xhtml_parse_transformation_registry.py"],
  [("parse_non_fraction / normalize_numerical_fact_value", "brel/parsers/XHMTL/elements/parse_non_fraction.py"), ("transformation registry", "brel/parsers/XHMTL/xhtml_parse_transformation_registry.py")],
  ["Filing.get_all_facts", "Fact.get_value_as_str"])

p("F13", "Inline dates and fixed values are transformed to their ISO meaning",
  "An inline text fact with a date format reports the ISO date, month-day, year-month or month-day-less date that its text denotes in that format's field order and language, whatever separators, zero padding, letter case or month abbreviation permitted by the format it uses. Boolean, empty and no-content formats report true, false and the empty string; text without a format is reported unchanged, and text that does not fit its format is reported as an error and left as it is.",
  ["inputs"], "All days, months, years, orders, separators, paddings and month names of each supported language (Japanese eras without the check of their limits).",
  T, ["brel/parsers/XHMTL/xhtml_parse_transformation_registry.py", "brel/parsers/XHMTL/elements/parse_non_numeric.py"],
  [("transform", "brel/parsers/XHMTL/xhtml_parse_transformation_registry.py")], ["Filing.get_all_facts", "Fact.get_value_as_str", "Filing.get_errors"])

p("F14", "Inline text is assembled from all its pieces, in order, without exclusions",
  "An inline text fact's value is the concatenation, in document order and then along its continuation chain, of all text inside it at any depth except inside exclude elements, wherever in the documents the continuations stand. Every continuation is used by the one chain that names it, in chain order, text outside the pieces never appears, and with escape set the value is the markup of the pieces, escaped once.",
  ["inputs"], "All nestings of markup, inline facts and exclusions, and all chains of continuations placed anywhere and in any document order.",
  T, ["brel/parsers/XHMTL/elements/parse_non_numeric.py", "brel/parsers/XHMTL/elements/parse_continuation_chain.py"],
  [("parse_continuation_chain", "brel/parsers/XHMTL/elements/parse_continuation_chain.py")], ["Filing.get_all_facts", "Fact.get_value_as_str"])

p("F15", "An inline filing reports the same facts as the equivalent XML filing",
  "The inline document set obtained by embedding the facts, contexts and units of an XML instance anywhere in XHTML pages, visibly or in hidden sections, with resources in any of several headers or documents, reports the same facts with the same values, aspects, units and ids. Footnote relationships declared inline connect exactly the listed facts to exactly the listed footnotes or facts, each footnote with its text and the nearest declared language.",
  ["inputs", "configurations"], "All instances and all ways of distributing their facts, contexts, units, relationships and footnotes over pages, headers and nesting levels; acyclic footnote relationships.",
  T, ["brel/parsers/XHMTL/xhtml_parse_facts.py", "brel/parsers/XHMTL/elements/", "brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py"],
  [("parse_facts_xhtml", "brel/parsers/XHMTL/xhtml_parse_facts.py"), ("parse_footnote_networks_xhtml", "brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py")],
  ["Filing.get_all_facts", "Filing.get_all_physical_networks"])

p("F16", "Malformed parts are reported as errors and damage nothing else",
  "Opening a well-formed XML or inline filing that contains invalid facts, contexts, units, dimensions, concepts, arcs, resources, continuations, footnotes, relationships, headers or roles always succeeds: each invalid part is reported as an error of its kind that points at it, and every part that does not refer to it is reported as if the invalid part were not there. No error points at a valid part, so that a filing without invalid parts reports none.",
  ["inputs", "fault_sequences"], "All filings combining valid parts with any number of injected defects of each kind, in any order.",
  T + "No test opens an invalid filing.",
  ["brel/errors/", "brel/data/errors/", "brel/parsers/XML/"],
  [("ErrorRepository.insert", "brel/data/errors/error_repository.py"), ("error factories", "brel/errors/error_factory_registry.py")],
  ["Filing.get_all_errors/get_errors", "Filing.get_all_facts", "Filing.get_component(uri)"])

p("F17", "Every query answers exactly from the opened filing's contents",
  "Lookups of facts, concepts, report elements, components, labels and errors return exactly those of the filing's items that match the request: facts by concept or concept name, core facts without dimensions, reported concepts, elements by kind or by (prefixed) name, networks of a component, errors by severity or area. Asking for one item that is absent or ambiguous is refused with an error, and no query changes what later queries return.",
  ["inputs", "histories"], "All filings and all sequences of queries, for names that are present, absent, ambiguous across namespaces, or of the wrong kind.",
  T, ["brel/brel_filing.py", "brel/services/report_element/report_element_service.py", "brel/qnames/qname_search_params.py", "brel/data/errors/error_repository.py"],
  [("Filing queries", "brel/brel_filing.py"), ("ReportElementService", "brel/services/report_element/report_element_service.py")],
  ["Filing.get_*"])

p("F18", "Characteristics compare and read by value, and facts read by type",
  "Periods, entities, concepts and dimension characteristics taken from any two facts of a filing are equal exactly if they denote the same value, and a fact's typed value is the integer, decimal, boolean or text its concept's data type calls for. A period is either an instant with its date or a duration with its start and end, reading the other form is refused, and every characteristic renders as text that names its value.",
  ["inputs"], "All pairs of facts of a filing and all data types, dates and lexical forms.",
  "The stable tests compare one or two hand-made characteristics.",
  ["brel/characteristics/", "brel/brel_fact.py", "brel/brel_context.py"],
  [("PeriodCharacteristic", "brel/characteristics/period_characteristic.py"), ("Fact.get_value", "brel/brel_fact.py")],
  ["Fact.get_value/get_value_as_int/...", "Fact.get_characteristic", "=="])

p("F19", "Output tables show the filing's content in the best available language",
  "A table generated from a filing has exactly one row per fact, core fact, report element, component or label, in the content's own order and with the values those objects report. A label shown is the element's first label in the earliest language it has one in, in the order of preference (requested for the table, set on the filing, set for the library, then the system's and the report's if allowed), falling back to a main label or the name only where permitted; without mixing, the whole table is in the earliest preferred language available for all of it.",
  ["inputs", "configurations"], "All filings, sets of label languages and roles, and requested language lists and output options.",
  T, ["brel/services/translation/translation_service.py", "brel/brel_filing.py", "brel/brel_component.py", "brel/reportelements/i_report_element.py", "brel/parsers/utils/"],
  [("TranslationService", "brel/services/translation/translation_service.py"), ("OutputParams", "brel/services/translation/")],
  ["Filing.generate_*_pandas_df"])

p("F20", "Opening is repeatable and filings never influence each other",
  "Opening the same files again, in a fresh process, after other filings, with the files in another order, or under other file names and taxonomy prefixes, yields the same facts, report elements, networks, components and errors. Opening, querying or dropping one filing never changes what another open filing reports.",
  ["histories", "schedules"], "All interleavings of opening and reading several filings that share concept names, context ids, unit ids, fact ids and file names.",
  T, ["brel/brel_filing.py", "brel/contexts/filing_context.py", "brel/data/"],
  [("FilingContext", "brel/contexts/filing_context.py")], ["Filing.open", "Filing.get_*"])

p("F21", "The EDGAR helper opens the newest filing that matches the request",
  "Among all the recent submissions EDGAR lists for a company, the helper opens the one with the requested form that carries XBRL and matches the requested date, and without a date the one with the latest report date; it opens the instance document of that submission. The listing used is at most two days old, and if none matches, nothing is opened and this is reported.",
  ["inputs", "histories"], "All submission lists: any order, forms, report dates, XBRL flags, ties and gaps, all requests, and all histories of listings, days passing and requests.",
  "The only EDGAR test needs the live service.",
  ["brel/utils/edgar.py"], [("open_edgar", "brel/utils/edgar.py")], ["open_edgar", "requests seen by a stand-in session"])

p("F22", "Printing shows exactly the facts, networks and components it is given",
  "Printing a fact, any list of facts, a network, a node, a component or a list of components never fails, and it shows each fact in a row of its own with its value, identifier (of lists) and each characteristic under its aspect, nothing else being claimed of it. Each node of a network is one line, in the network's order, that names its element, fact or resource and its exact weight, and whose bars and corners place it below its parent; a component shows its URI, its description to the letter and all its networks.",
  ["inputs"], "All lists of facts with different, repeated or missing aspects and ids; all forests of networks of each kind, weights, descriptions and resources.",
  "The stable tests only print what is refused and no network at all.",
  ["brel/utils/print_facts.py", "brel/utils/print_networks.py", "brel/utils/print_component.py", "brel/utils/pprint.py"],
  [("pprint_facts", "brel/utils/print_facts.py"), ("pprint_network", "brel/utils/print_networks.py"), ("pprint_component", "brel/utils/print_component.py")],
  ["brel.utils.pprint (standard output)"])

p("F23", "Every way of looking at an item of a filing says the same about it",
  "Whatever else can be asked of an element, fact, aspect, unit, network, node, component, label, reference, footnote, name or error - its dictionary, text, iteration, lookup of a characteristic through fact or context, typed reading, descendants, roots, arc roles, its being simple, core, explicit, numeric, a leaf or a holder of this or that - agrees with what its plain accessors report of it, and asking changes nothing. An element's main label is its first one in the earliest of en, en-US, en-GB, EN, EN-US, EN-GB there is, and otherwise its first label. Looking for what an item does not have gives none or is refused, never something of another item.",
  ["inputs", "histories"], "All items of all filings, with namesakes, missing parts, labels in languages that resemble each other, every view.",
  "No stable test opens a filing; the views are many and each is derived separately.",
  ["brel/brel_fact.py", "brel/brel_context.py", "brel/networks/i_network.py", "brel/reportelements", "brel/resource", "brel/characteristics", "brel/errors/error_instance.py"],
  [("convert_to_dict", "brel/brel_fact.py"), ("select_main_label", "brel/reportelements/i_report_element.py"), ("get_all_descendants", "brel/networks/i_network_node.py")],
  ["Fact", "Context", "IReportElement", "INetwork", "INetworkNode", "Component", "IResource", "QName", "ErrorInstance"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
