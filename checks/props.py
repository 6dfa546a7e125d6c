"""The properties: what each one says, where it is anchored, which analysis decides it."""
ABS = 'abstract interpretation of the type-checked MIR of the derive-expanded code'
D = 'validators-derive/src/'
H = D + 'validator_handlers/'
V = 'validators/src/'

PROPS = {
'P01': dict(
    title='Base32, Base64 and Base64-URL validators accept exactly their language',
    statement="A Base32, Base64 or Base64-URL string or byte-slice validator accepts an input exactly when it is non-empty, consists of data characters of that encoding's alphabet, and its length and trailing '=' padding form complete encodable groups under the configured padding rule (padding optional, mandatory or forbidden). The accepted value is the input unchanged, and no input makes validation panic.",
    over=['inputs', 'configurations'], quant='every string or byte slice of any length and content, for every padding option and every parse/validate entry point',
    tests='the tests sample a handful of valid strings per padding option; a wrong group length, a padding in the middle or a foreign alphabet character at one position among unboundedly many is not reached',
    files=[H + 'base64/mod.rs', H + 'base64_url/mod.rs', H + 'base32/mod.rs'],
    mech=[('alphabet scan and padding arithmetic', H + 'base64/mod.rs'), ('Base32 variant', H + 'base32/mod.rs'), ('URL-safe variant', H + 'base64_url/mod.rs')],
    modules=['p_base'], level='proof', technique=ABS + ' with symbolic length, length classes modulo the group size and quantified byte-set facts',
    rule='Every outcome of every entry point of every padding configuration is classified: the facts of an Ok outcome must imply membership in the language and those of an Err outcome must imply non-membership; the returned string must be the input; every panic edge must be unreachable.', floor=3000),
'P02': dict(
    title='MAC address and UUID validators accept exactly their shape and decode it',
    statement='A MAC address or UUID validator accepts a string exactly when it has the canonical groups of hexadecimal digits in the configured letter case, with the configured separator required, optional at each group boundary, or forbidden. The accepted value is the big-endian number those digits denote, and no string makes parsing panic.',
    over=['inputs', 'configurations'], quant='every string of any length, for every combination of case and separator options and every entry point',
    tests='the tests parse a few well-formed addresses; 16^12 (16^32) digit strings times 32 (16) optional-separator layouts and all malformed ones are out of reach',
    files=[H + 'mac_address/mod.rs', H + 'uuid/mod.rs'],
    mech=[('MAC address scanning and digit accumulation', H + 'mac_address/mod.rs'), ('UUID scanning', H + 'uuid/mod.rs')],
    modules=['p_hex'], level='proof', technique=ABS + ', decoded value compared digit by digit',
    rule='Every outcome of every entry point of every case/separator configuration is classified against the set of layouts; the linear form of the decoded number is compared with the positional value of every digit cell for every byte of its set; every panic edge must be unreachable.', floor=2000),
'P05': dict(
    title='Line and text validators enforce control-character and length rules',
    statement='A line validator rejects every string with a control character other than tab (and a text validator every one other than tab, newline and carriage return), wherever it stands, and otherwise accepts exactly the strings whose length in the configured unit (bytes or characters) lies between the minimum and maximum and whose length without leading and trailing white space reaches the trimmed minimum. The accepted value is the input unchanged.',
    over=['inputs', 'configurations'], quant='every string, for every combination of character/byte length unit, minimum, trimmed minimum and maximum',
    tests='the tests use a handful of ASCII strings; the position of the offending character, multi-byte widths and the interplay of the three limits are not explored',
    files=[H + 'line/mod.rs', H + 'text/mod.rs'],
    mech=[('scan with running and trimmed counters', H + 'line/mod.rs'), ('text variant', H + 'text/mod.rs')],
    modules=['p_line'], level='proof', technique=ABS + ' (all lengths; configurations with a trimmed minimum by exact unrolling up to 9 characters and enumerated UTF-8 widths)',
    rule='Every outcome is classified against the specification. Configurations without a trimmed minimum are decided for strings of any length. Configurations with one are decided for every string of up to 9 characters (character lengths) or for enumerated UTF-8 width patterns of up to 9 characters (byte lengths).', floor=1500,
    assumptions=['configurations with a trimmed minimum: strings longer than 9 characters are not covered']),
'P03': dict(
    title='MAC address and UUID validators render the canonical text of the value',
    statement="to_mac_address_string and to_uuid_string render the wrapped number as its 12 (32) zero-padded hexadecimal digits, most significant first, in the configured letter case (upper case when any case is admitted), with the configured separator character between the canonical groups when a separator is required or optional and none when it is forbidden; so a rendered value is always accepted again by the same validator and parses back to the same number.",
    over=['inputs', 'configurations'], quant='every 48-bit (128-bit) number, for every combination of case and separator options',
    tests='the tests render a few addresses; leading zeros in some group, or a wrong shift for one digit, need particular values',
    files=[H + 'mac_address/mod.rs', H + 'uuid/mod.rs'],
    mech=[('to_mac_address_string', H + 'mac_address/mod.rs'), ('to_uuid_string', H + 'uuid/mod.rs')],
    modules=['p_render'], level='proof', technique=ABS + ' with one symbolic nibble per hexadecimal digit',
    rule='The rendered string of every configuration is decomposed into characters; character by character it must be the separator at a group boundary or the digit of the symbolic nibble of that position in the configured case.', floor=200),
'P04': dict(
    title='Boolean validators accept exactly the listed spellings with their meaning',
    statement='A boolean validator maps true, t, yes, y, on, 1 (strings in lower, upper or any mixed case; characters; integers of every width; bool itself) to true and false, f, no, n, off, 0 to false, rejects every other input of every supported input type, and never panics.',
    over=['inputs'], quant='every string, character, bool and integer of every width, through every parse/validate entry point',
    tests='the tests list some accepted words; near misses (prefixes, suffixes, mixed case, other integers) are unbounded',
    files=[H + 'boolean/mod.rs'],
    mech=[('spelling tables per input type', H + 'boolean/mod.rs')],
    modules=['p_bool'], level='proof', technique=ABS + ' with symbolic input bytes',
    rule='Every outcome of the 30 entry points is classified: accepted inputs must be one of the spellings of the returned value, rejected ones must be none of them.', floor=60),
'P06': dict(
    title='Number validators enforce the declared range and NaN rule',
    statement='A floating-point number validator (f32 or f64, every input width and text) accepts a value exactly when it lies inside (or, for an outside range, not inside) the declared minimum and maximum with the declared inclusiveness, and NaN exactly when it is allowed or required (when NaN is required nothing else is accepted). The accepted value is the input number.',
    over=['inputs', 'configurations'], quant='every floating-point value including infinities, signed zeros and NaN, for every range kind, inclusiveness and NaN option',
    tests='the tests try a few values per configuration; boundary neighbours, NaN combined with outside ranges and f32/f64 conversion are not covered',
    files=[H + 'number/mod.rs', 'validators-derive/src/common/range.rs', 'validators-derive/src/common/attributes/range_attribute.rs'],
    mech=[('range and NaN tests', H + 'number/mod.rs')],
    modules=['p_float'], level='proof', technique=ABS + ' with a total-order encoding of floating-point values',
    rule='Every outcome is classified: the value set of an Ok path must lie inside the accepted set computed from the attribute and that of an Err path outside it; text parsing is the uninterpreted result of the core parser applied to the unchanged input.', floor=1500),
'P07': dict(
    title='Integer validators accept exactly the declared range at every input width',
    statement='A signed or unsigned integer validator of any width accepts text or an integer of any width of its signedness exactly when the value fits the target type and lies inside (or, for an outside range, not inside) the declared minimum and maximum with the declared inclusiveness. The accepted value equals the input value; nothing is truncated or wrapped, and no input panics.',
    over=['inputs', 'configurations'], quant='every text and every integer of every width, for all twelve integer types and every range kind, bound and inclusiveness',
    tests='the tests try a few values of one type; width conversions, boundary neighbours and type extremes are not covered',
    files=[H + 'signed_integer/mod.rs', H + 'unsigned_integer/mod.rs', 'validators-derive/src/common/range.rs', V + 'traits/validate_unsigned_integer.rs', V + 'traits/validate_signed_integer.rs'],
    mech=[('range tests', H + 'signed_integer/mod.rs'), ('width conversions', H + 'unsigned_integer/mod.rs')],
    modules=['p_num'], level='proof', technique=ABS + ' with interval-set values',
    rule='Every outcome is classified: the value set of an Ok path must lie inside the accepted set computed from the attribute and that of an Err path outside it; the wrapped value must equal the input.', floor=2500),
'P08': dict(
    title='IP address validators enforce address, port and local rules',
    statement='An ip, ipv4 or ipv6 validator accepts a string exactly when it is a textual address of the configured family (an IPv6 address may stand in square brackets, and must do so before a port), with a decimal port (digits only, at most 65535) present, optional or absent as configured, and with the local rule satisfied (a local address forbidden, required, or either). The accepted value holds the parsed address and port; to_uri_authority_string renders the address (IPv6 in brackets) followed by a colon and the port when there is one; no string makes validation panic.',
    over=['inputs', 'configurations'], quant='every string, for each of the three validators and every combination of the local and port options',
    tests='the tests parse a few addresses per option; malformed brackets, signs in ports, positions of colons and the interplay of the options are not explored',
    files=[H + 'ip/mod.rs', H + 'ipv4/mod.rs', H + 'ipv6/mod.rs'],
    mech=[('bracket, colon and port splitting', H + 'ip/mod.rs'), ('IPv4 variant', H + 'ipv4/mod.rs'), ('IPv6 variant', H + 'ipv6/mod.rs')],
    modules=['p_ip'], level='proof', technique=ABS + '; core address parsers as uninterpreted functions of the text handed to them',
    rule='Every outcome of every entry point of the 27 configurations is classified against a grammar over positions of brackets and colons; the address and port must be the parse of exactly the right part of the text; the rendered authority is compared part by part.', floor=400,
    assumptions=['core::net address parsing and u16::from_str are trusted; what they accept enters as facts about length and characters']),
'P09': dict(
    title='The exported locality and domain predicates decide the documented sets',
    statement="is_local_ipv4 holds exactly for private, loopback, link-local, broadcast, documentation and unspecified addresses; is_local_ipv6 exactly for unspecified, loopback, non-global multicast, unicast link-local, site-local, unique local and documentation addresses and for IPv4-compatible or IPv4-mapped addresses whose IPv4 address is local; is_local_ip agrees with them; is_local_domain holds exactly for 'localhost' in any letter case with an optional final dot; is_at_least_two_labels_domain exactly when a dot stands before the last character; parse_ipv4_allow_an_ended_dot parses the text without one final dot.",
    over=['inputs'], quant='every IPv4 and IPv6 address and every string',
    tests='the address space cannot be sampled; a wrong mask or boundary affects addresses the tests do not name',
    files=[V + 'functions/ipv4.rs', V + 'functions/ipv6.rs', V + 'functions/ip.rs', V + 'functions/domain.rs'],
    mech=[('IPv4 classes', V + 'functions/ipv4.rs'), ('IPv6 classes', V + 'functions/ipv6.rs'), ('domain predicates', V + 'functions/domain.rs')],
    modules=['p_local'], level='proof', technique=ABS + ' of the predicates down to the octets (core::net inlined)',
    rule='Every path of every predicate is classified: its octet (character) facts must imply membership when it returns true and non-membership when it returns false.', floor=150),
'P10': dict(
    title='Domain and host validators enforce name, address, label, local and port rules',
    statement='A domain validator accepts a string exactly when the part before an optional last colon and port converts to a valid ASCII domain name (IDNA with STD3 rules, length and hyphen checks) and the configured rules hold: IPv4 addresses (recognised in the converted text, with an optional final dot) forbidden, required or allowed; a dot inside the name required or forbidden unless the name is local; local names and addresses forbidden, required or allowed; the decimal port (digits only, at most 65535) forbidden, required or optional. A host validator does the same for IPv6 (optionally bracketed, necessarily so before a port), IPv4 and names without a final dot. The value holds the converted name or parsed address, the port and the flags is_ipv4 and is_local; to_uri_authority_string renders name (without a final dot) or address (IPv6 in brackets) and port; is_fully_qualified tells whether a domain ends with a dot and get_domain_non_fully_qualified removes it. Nothing panics.',
    over=['inputs', 'configurations'], quant='every string, for both validators and every combination of the ipv4, local, port and at_least_two_labels options',
    tests='the tests try a few names per option out of 108 option combinations; where the colon stands, what IDNA maps to an address and which rule applies to which kind of host are not explored',
    files=[H + 'domain/mod.rs', H + 'host/mod.rs', V + 'models/host.rs'],
    mech=[('name, address and port splitting', H + 'domain/mod.rs'), ('host variant', H + 'host/mod.rs')],
    modules=['p_domain'], level='proof', technique=ABS + '; IDNA conversion, address parsing and the locality predicates as uninterpreted functions of the text handed to them',
    rule='Every outcome of every entry point of the 108 configurations is classified against the grammar and the rules; the value must hold the conversion or parse of exactly the right part of the text; rendered text is compared part by part.', floor=1500,
    assumptions=['idna::Config::to_ascii is an uninterpreted function of its flags and text; the locality predicates are decided by P09']),
'P11': dict(
    title='HTTP and FTP URL validators enforce scheme and locality of the parsed URL',
    statement='An http_url (http_ftp_url) validator accepts a string exactly when it starts with http:, https: (or ftp:) in any letter case, the URL parser accepts the whole string, and the host of the parsed URL satisfies the local rule (local domain or address forbidden, required, or either). The accepted value holds the parsed URL and the scheme it was written with (is_https, protocol). No string makes validation panic.',
    over=['inputs', 'configurations'], quant='every string, for both validators and every local option',
    tests='the tests try a few URLs; letter case of the scheme, each kind of host and each option in combination are not explored',
    files=[H + 'http_url/mod.rs', H + 'http_ftp_url/mod.rs'],
    mech=[('scheme test, delegation and locality', H + 'http_url/mod.rs'), ('FTP variant', H + 'http_ftp_url/mod.rs')],
    modules=['p_url'], level='proof', technique=ABS + '; URL parsing as an uninterpreted function of the text',
    rule='Every outcome of every entry point is classified: an Ok path must carry the scheme facts, a successful parse of the unchanged text and the locality fact of the right predicate for the kind of host; an Err path must refute one of them.', floor=200,
    assumptions=['url::Url::parse and the accessors of Url are trusted; a URL with scheme http, https or ftp has a host']),
'P12': dict(
    title='Validators built on a third-party parser follow its verdict on the whole input',
    statement='A url, semver or semver_req validator accepts a string exactly when the library parser accepts the unchanged string and holds the parsed value; a regex validator accepts exactly the strings the configured expression matches and keeps them unchanged; a json validator accepts a string exactly when serde_json decodes it to the wrapped type, an integer, bool, number or JSON value exactly when its JSON value converts to the wrapped type, and renders the minified or beautified JSON text of the wrapped value; a phone validator accepts exactly the numbers that parse (in a listed country, if any are listed), belong to that country and are valid, and holds the number (with several countries: a map with exactly the listed countries for which that is so). No input makes them panic.',
    over=['inputs', 'configurations'], quant='every string (for json also every integer, bool and JSON value), through every entry point',
    tests='the tests try a few texts; a pre-processed input, a dropped condition or one of several countries treated differently shows only for particular inputs',
    files=[H + 'url/mod.rs', H + 'semver/mod.rs', H + 'semver_req/mod.rs', H + 'regex/mod.rs', H + 'regex/regex_attribute.rs', H + 'json/mod.rs', H + 'phone/mod.rs'],
    mech=[('delegation', H + 'semver/mod.rs'), ('country loop', H + 'phone/mod.rs'), ('JSON conversions', H + 'json/mod.rs')],
    modules=['p_deleg'], level='proof', technique=ABS + '; library parsers as uninterpreted functions of their arguments',
    rule='Every outcome of every entry point is classified against the verdict of the library function applied to exactly the input; the value must be that of the same application.', floor=200,
    assumptions=['the third-party parsers (url, semver, regex, serde_json, phonenumber) are trusted; serializing the wrapped JSON value does not fail']),
'P13': dict(
    title='Decoding Base32/Base64 validators hold exactly the decoded bytes',
    statement='A base32_decoded, base64_decoded or base64_url_decoded validator accepts a string or byte slice exactly when it is non-empty, consists of the alphabet in the padding form the configuration allows (optional, required or forbidden `=` that completes the final group), and the unchanged text decodes; an accepted value holds exactly the decoded bytes and its collection length is the number of decoded bytes. Parsing and validating agree on every input and none makes them panic.',
    over=['inputs', 'configurations'], quant='every string and byte slice of any length, for the three encodings, every padding option and every entry point',
    tests='the tests try about ten texts per encoding; final groups of every shape, non-canonical trailing bits and the agreement of the validating entry points are not sampled',
    files=[H + 'base32_decoded/mod.rs', H + 'base64_decoded/mod.rs', H + 'base64_url_decoded/mod.rs'],
    mech=[('alphabet check and decoding', H + 'base64_decoded/mod.rs'), ('URL-safe alphabet', H + 'base64_url_decoded/mod.rs'), ('eight-character groups', H + 'base32_decoded/mod.rs')],
    modules=['p_decoded'], level='proof', technique=ABS + '; the encoding is read off the specification table in the constant, decoding of well-formed text is an uninterpreted function of its data characters',
    rule='Every outcome of every entry point is compared with: member of the alphabet language of the padding option and successful decoding of the unchanged text; the held bytes must be those of the same decoding.', floor=200,
    assumptions=['data_encoding decodes: it refuses text outside the alphabet, wrong padding and non-zero trailing bits']),
'P14': dict(
    title='Length validators bound the element count of the collection',
    statement='A length validator accepts a collection exactly when its number of elements is at least min (if given) and at most max (if given), including when min equals max; the error is TooSmall below min and TooLarge above max; the accepted value is the collection itself, and validating agrees with parsing. CollectionLength reports the number of elements of every supported collection (Vec, BinaryHeap, BTreeSet, BTreeMap, HashSet, HashMap, JSON map), and is_empty says whether it is zero.',
    over=['inputs', 'configurations'], quant='every collection of every size, for each supported collection type and a user-defined one, and each shape of bounds',
    tests='the tests try four collections with one configuration each',
    files=[H + 'length/mod.rs', H + 'length/length_attribute.rs', V + 'traits/collection_length.rs', V + 'traits/validate_length.rs', 'validators-derive/src/common/length.rs'],
    mech=[('bounds', H + 'length/mod.rs'), ('element counts', V + 'traits/collection_length.rs')],
    modules=['p_length'], level='proof', technique=ABS,
    rule='Every outcome of every entry point is compared with min <= number of elements <= max; every Err path must lie on the side its variant names; every CollectionLength impl must return the element count.', floor=60,
    assumptions=['the len methods of the standard collections return the element count']),
'P15': dict(
    title='Byte and bit validators apply the declared range to the parsed size',
    statement='A byte (bit) validator accepts a string exactly when byte_unit reads the whole unchanged string as a size, ignoring the case of the unit as configured (by default for byte), and the size in bytes (bits) lies within the declared minimum and maximum (the maximum included unless inclusive is false); it accepts an unsigned integer of any width exactly when the size type can hold it and it lies in that range. The accepted value is that size; a size outside is reported as TooSmall or TooLarge on the side it lies. Validating agrees with parsing and nothing panics.',
    over=['inputs', 'configurations'], quant='every string and every unsigned integer of every width, for each shape of range, both case settings, and 64- and 128-bit size types',
    tests='the tests try three sizes against one range each; bounds, half-open ranges and the integer entry points are not sampled',
    files=[H + 'byte/mod.rs', H + 'bit/mod.rs', H + 'byte/byte_attribute.rs', H + 'bit/bit_attribute.rs', 'validators-derive/src/common/range.rs', V + 'traits/validate_unsigned_integer.rs'],
    mech=[('range check and conversions', H + 'byte/mod.rs'), ('bit variant', H + 'bit/mod.rs'), ('range attribute', 'validators-derive/src/common/range.rs')],
    modules=['p_unit', 'p_unit128'], level='proof', technique=ABS + '; parse_str as an uninterpreted function of text and case flag, integer conversions and comparisons from the MIR of byte_unit',
    rule='Every outcome of every entry point is compared with: parsed (or convertible) and lo <= size <= hi; every Err path must lie on the side its variant names.', floor=700,
    assumptions=['byte_unit parses sizes']),
'P16': dict(
    title='Serializing a validator type hands over its documented text or value',
    statement='With the serde feature, Serialize hands the serializer, human-readable or not, exactly one value and passes its answer or error on: the stored text of base32, base64, base64_url, line, text and regex; the text of to_uri_authority_string (domain, host, ip, ipv4, ipv6), to_email_string, to_mac_address_string and to_uuid_string; the decoded bytes, as bytes, of the decoded validators; the bool of boolean; the number of the field\'s own type for number and integer validators (isize and usize as 64 bits); the minified JSON text of json, as a string; and for bit, byte, url, semver, semver_req, phone, length and the url of the HTTP validators what the wrapped value\'s own Serialize does. It adds nothing, changes nothing and does not panic.',
    over=['inputs'], quant='every value of 75 witness types covering all 31 validators, human-readable and binary serializers, serializers that refuse',
    tests='no test serializes a value',
    files=[H + x + '/mod.rs' for x in ('base32', 'base32_decoded', 'base64', 'base64_decoded', 'base64_url', 'base64_url_decoded', 'bit', 'boolean', 'byte', 'domain', 'email', 'host', 'http_ftp_url', 'http_url', 'ip', 'ipv4', 'ipv6', 'json', 'length', 'line', 'mac_address', 'number', 'phone', 'regex', 'semver', 'semver_req', 'signed_integer', 'text', 'unsigned_integer', 'url', 'uuid')],
    mech=[('Serialize impls', H)],
    modules=['p_ser'], level='proof', technique=ABS + '; the Serialize impl is compared with the documented call on the same symbolic value and serializer',
    rule='For every value and every serializer (a recording witness whose verdict and readability are symbolic) the result of Serialize must be the result of the documented serializer call.', floor=60,
    assumptions=['the Serialize impls of wrapped third-party and collection types are uninterpreted functions of the value and the serializer', 'a serializer is seen through the recording witness; Serialize is generic over it, so it cannot treat others differently except through is_human_readable']),
'P17': dict(
    title='Deserializing a validator type validates the value the format hands over',
    statement='With the serde feature, deserializing a validator type from a self-describing format that hands over a value succeeds exactly when the matching entry point of the validator accepts that unchanged value, and yields the value that entry point yields. Text (as str, borrowed str or String) goes to string parsing for every string validator; bytes and byte buffers to byte parsing for the six Base32/Base64 validators; booleans, characters and integers of every width and either signedness to the boolean validator; integers of every width and either signedness to the integer validators, as the number they are (a number the widest type cannot hold is refused); f32, f64 and integers up to 64 bits to the number validator; unsigned integers to the byte validator. Url, semver and bit types deserialize as their wrapped type does (bit then applies its range); json applies serde_json to the handed-over JSON value, length applies its bounds to the deserialized collection. Any other kind of value is refused. Deserialization always ends: it never calls itself.',
    over=['inputs', 'configurations'], quant='every value of each kind (text, bytes, bool, char, ten integer kinds, two float kinds) handed over by a deserializer, for every validator in one to four configurations',
    tests='the tests deserialize one JSON string for some validators; no test uses numbers, bytes, borrowed or owned text, a compact format or an erroneous kind',
    files=[H + x + '/mod.rs' for x in ('base32', 'base64', 'bit', 'boolean', 'byte', 'domain', 'email', 'host', 'http_url', 'ip', 'json', 'length', 'line', 'mac_address', 'number', 'phone', 'regex', 'semver', 'signed_integer', 'text', 'unsigned_integer', 'url', 'uuid')],
    mech=[('Deserialize impl of each validator', H), ('integer visitors', H + 'signed_integer/mod.rs')],
    modules=['p_serde'], level='proof', technique=ABS + '; the derived Deserialize is interpreted against model deserializers, the validator entry points and third-party Deserialize impls are uninterpreted functions of their argument',
    rule='For each validator and each kind of value, every outcome of Deserialize::deserialize must be that of the documented entry point on the unchanged value (same success, same payload); a kind outside the list must end in Err. Where the impl does not go through the trait entry points, both are interpreted on the same symbolic value and their outcomes compared.', floor=300,
    assumptions=['serde, byte_unit, url, semver and serde_json implement Deserialize as documented']),
'P18': dict(
    title='validators::Result holds exactly the validator\'s outcome',
    statement='Converting a value (str, String, bytes, char, bool, number of any width, JSON value) into validators::Result<T, E> with From or FromStr holds exactly the outcome, Ok value or error, of the matching entry point of T for that value, and FromStr never fails. With serde, deserializing validators::Result<T, E> succeeds for every value of a kind that the validator deserializes from and holds the outcome of the entry point for that value (a number outside the widest type is an error), and refuses values of other kinds; for json and length it holds the outcome for the deserialized value. new, From, into_std_result, as_std_result, Into<Result>, Deref and DerefMut give back the very result that was put in.',
    over=['inputs', 'configurations'], quant='every value of every convertible kind, for every validator error type',
    tests='the tests never use validators::Result except in one documentation example',
    files=[V + 'result/mod.rs', V + 'result/built_in_traits.rs', V + 'result/serde_traits.rs'],
    mech=[('conversions', V + 'result/built_in_traits.rs'), ('Deserialize impls', V + 'result/serde_traits.rs'), ('accessors', V + 'result/mod.rs')],
    modules=['p_result'], level='proof', technique=ABS + '; the entry points are uninterpreted functions of their argument, formats are model deserializers',
    rule='The result held by every outcome of every conversion, deserialization and accessor must be the uninterpreted outcome of the documented entry point on the unchanged value.', floor=400,
    assumptions=['the wrapped collection and JSON value deserialize as serde and serde_json define']),
'P19': dict(
    title='Rocket path parameters and form fields validate the unchanged text',
    statement='With the rocket feature, FromParam of a validator type is the outcome (value or error) of string parsing for the unchanged parameter; FromFormField::from_value succeeds exactly when string parsing accepts the unchanged field value and yields the same value; a form field of type validators::Result<T, E> is never refused and holds the outcome of string parsing for the field value.',
    over=['inputs', 'configurations'], quant='every parameter and every form field value, for every string validator in one to four configurations',
    tests='no test exercises the rocket feature',
    files=['validators-derive/src/common/rocket.rs', V + 'result/rocket_traits.rs'],
    mech=[('FromParam and FromFormField', 'validators-derive/src/common/rocket.rs'), ('form field of Result', V + 'result/rocket_traits.rs')],
    modules=['p_rocket'], level='proof', technique=ABS + '; parse_str as an uninterpreted function of the text',
    rule='Every outcome of from_param and from_value must be that of parse_str on the unchanged text.', floor=40,
    assumptions=[]),
'P20': dict(
    title='Narrow number entry points hand the same number to the widest one',
    statement='For a type that implements ValidateUnsignedInteger, ValidateSignedInteger or ValidateNumber with only the required methods, parsing or validating a value of any narrower width (8 to 128 bits, pointer-sized, f32) gives exactly the outcome of the widest method for the numerically same value, without panicking.',
    over=['inputs'], quant='every value of every integer width, every f32, for parse and validate',
    tests='the tests call at most one width per validator',
    files=[V + 'traits/validate_unsigned_integer.rs', V + 'traits/validate_signed_integer.rs', V + 'traits/validate_number.rs'],
    mech=[('default methods', V + 'traits/validate_unsigned_integer.rs')],
    modules=['p_widen'], level='proof', technique=ABS + '; the widest methods are uninterpreted functions of the number',
    rule='Every outcome of every default method must be the uninterpreted widest method applied to the same number.', floor=12,
    assumptions=['a 64-bit target: the cfg-selected bodies for 16- and 32-bit pointers are not part of the analysed program']),
'P21': dict(
    title='Email validators accept exactly the local@domain grammar and store its parts',
    statement='An email validator accepts exactly the addresses local@domain where the bytes before the @ are at most 64 and those after it 1 to 255. Local part: an unquoted dot-atom (letters, digits, !#$%&\'*+-/=?^_`{|}~, single inner dots; non-ASCII only if the non_ascii option allows), or a non-empty quoted string of those characters, dots, spaces, tabs and backslash-escaped characters (any of these or one of (),:;<>@[]\\"). Domain: [IPv4], [IPv6:address] or a name which IDNA (STD3, length, hyphen checks) converts, without a final dot; it must also fit 255 bytes with the name or IPv6 address in converted form, and follow the ip, local and at_least_two_labels options (an IP is refused when labels are disallowed). If the comment option allows, one (comment) without ) may stand before and after each part; else none. The value holds the local part without quotes, need_quoted exactly when that text is not a dot-atom, the converted host, the comments and locality; to_email_string joins them back, quoting the local part exactly when need_quoted. Nothing panics.',
    over=['inputs', 'configurations'], quant='every string, for the 27 combinations of the ip, local and at_least_two_labels options with comments and non-ASCII characters allowed or not, for parse_str, parse_string and validate_str, and every value of those types for to_email_string',
    tests='the tests try some tens of addresses; the length limits, escapes, dots next to quotes and comments in combination are not explored',
    files=[H + 'email/mod.rs'],
    mech=[('local part scanner, comments, host and limits', H + 'email/mod.rs')],
    modules=['p_email'], level='proof', technique=ABS + '; a specification automaton reads the input alongside the analysed loops as ghost state; IDNA, address parsing and the locality predicates as uninterpreted functions',
    rule='Every outcome of every entry point is classified: the automaton state reached with the cells read must be accepting exactly on Ok paths, the domain rules are evaluated on the rest of the text, and each stored field must be the sequence between the recorded positions; rendered text is compared part by part.', floor=3000,
    assumptions=['idna::Config::to_ascii is an uninterpreted function of its flags and text; the locality predicates are decided by P09; states which leave a loop with the same shape are joined']),
'P22': dict(
    title='The error of a refused input states a rule which that input breaks',
    statement='When an input is refused that the same validator would accept with the options for address kind, locality, labels, port, comments, padding or separators set to Allow, the error names such an option whose rule this input breaks (LocalMust only if it is not local, LocalDisallow only if it is, PortMust only without a port, PortDisallow only with one, likewise IPv4, IP, AtLeastTwoLabels, Comment, Padding and Separator errors), never Invalid. Line and text: Invalid only with a forbidden control character, TooLong only above the maximum length, TooShort only below the minimum or the trimmed minimum. Numbers: the parse error only for text that is not a number of the type, TooSmall only below and TooLarge only above the admitted range (for an outside range: the type), Forbidden only inside the excluded range, NaNMust only for a number, NaNDisallow only for NaN. HTTP URLs: ProtocolError only without an admitted scheme, ParseError only if the URL parser refuses. Decoded encodings: Decode only if decoding fails. Phone: Failure only if parsing failed for a listed country, Invalid only if it succeeded for one.',
    over=['inputs', 'configurations'], quant='every input of every string, byte and number entry point of the encoding, MAC address, UUID, line, text, number, integer, ip, domain, host, HTTP URL, phone and email validators, in every combination of their options',
    tests='the tests only look at is_err(), never at which error is returned',
    files=[H + x + '/mod.rs' for x in ('base32', 'base64', 'base64_url', 'base32_decoded', 'base64_decoded', 'base64_url_decoded', 'mac_address', 'uuid', 'line', 'text', 'number', 'signed_integer', 'unsigned_integer', 'ip', 'ipv4', 'ipv6', 'domain', 'host', 'http_url', 'http_ftp_url', 'phone', 'email')] + [V + 'errors/mod.rs'],
    mech=[('error returns', H)],
    modules=['p_errors'], level='proof', technique=ABS + '; on every Err path the facts must imply the condition which the returned variant states, evaluated on the specification with all options set to Allow',
    rule='On every path that returns Err, the path facts must entail: the input is outside the language of the validator with all options set to Allow, or the rule that the returned error variant names is configured and broken. Length, range and parse errors must entail their own condition.', floor=9000,
    assumptions=['third-party parsers, IDNA and the locality predicates are uninterpreted functions, as in the properties of the handlers', 'with comments allowed, the email validator is analysed through parse_str']),
'P23': dict(
    title='A contradictory or malformed validator configuration does not compile',
    statement='The Validator derive refuses at compile time, and compiles the corrected twin of: a missing, repeated, argument-less or unknown validator attribute (also one whose feature is off); an option the validator does not have, given twice (char_length and byte_length count as one), without a value, or with a value outside its documented set; a number that is no literal of the type or does not fit it; a range, Inside or Outside, whose min exceeds max, or equals it when inclusive = false (also as a range expression with the full feature); length bounds with min > max, trimmed_min > min or trimmed_min > max; ipv4(Must) or ip(Must) with at_least_two_labels(Disallow), or nan(Must) with an Inside range, unless conflict(Allow); an invalid or missing regex; an unknown or repeated country; an enum, union or struct whose number, names or types of fields are not those the configuration documents; serde or rocket options which enable a framework whose feature is off. Every documented configuration compiles and implements the documented traits; serde and rocket options implement exactly the chosen traits, all when omitted.',
    over=['configurations'], quant='31 validators: every option with every documented value and a set of other values, every combination of the options of the host, domain, ip and email validators with items that differ in one component, ranges and lengths at the bounds of every number type, five feature sets',
    tests='the tests only contain configurations which compile; nothing checks that a wrong one is refused',
    files=['validators-derive/src/lib.rs', 'validators-derive/src/supported_validators.rs', 'validators-derive/src/common/range.rs', 'validators-derive/src/common/range_option.rs', 'validators-derive/src/common/length.rs', 'validators-derive/src/common/number.rs', 'validators-derive/src/common/boolean.rs', 'validators-derive/src/common/allow.rs', 'validators-derive/src/common/tri_allow.rs', 'validators-derive/src/common/case_option.rs', 'validators-derive/src/common/separator_option.rs', 'validators-derive/src/common/flag_options.rs'] + ['validators-derive/src/common/attributes/%s_attribute.rs' % x for x in ('base_xx', 'basic', 'http_xx_url', 'ip_xx', 'range', 'utf8')] + [H + '%s/%s_attribute.rs' % (x, x) for x in ('bit', 'byte', 'domain', 'email', 'host', 'length', 'mac_address', 'number', 'phone', 'regex', 'uuid')],
    mech=[('attribute parsing', 'validators-derive/src/common'), ('item shapes and conflicts', H)],
    modules=['p_config'], level='exploration', technique='compile-fail witnesses: the compiler\'s macro expansion and type check of generated items decide; every refused item has a compiling twin that differs only in the fault',
    rule='rustc must report an error inside every module with a faulty configuration (compiled again without those already refused until nothing more is refused) and none inside the modules with documented configurations.', floor=8000,
    assumptions=['rustc reports an error for a module exactly when that module does not compile']),
'P24': dict(
    title='Every way of writing a configuration means the same validator',
    statement='A validator behaves as if each omitted option had its documented default (padding, local, port, ipv4, ip, at_least_two_labels, comment, non_ascii, nan = Allow; range and length unlimited, bounds inclusive; ignore_case = true; case = Any; separator = Allow(b\':\') for MAC addresses and Allow(b\'-\') for UUIDs; conflict = Disallow; every country). option(value) and option = value mean the same; so do any order of the options and bounds, a trailing comma, min and max in decimal, hexadecimal, octal or binary with or without underscores, an empty option list, and number or boolean values which a macro_rules literal hands in.',
    over=['inputs', 'configurations'], quant='about 5,200 spellings of the 570 configurations of 29 validators which the other properties analyse; every input of each, since the generated programs are identical',
    tests='the tests write each configuration in one way and compare the stored option, not the behaviour',
    files=['validators-derive/src/common/range.rs', 'validators-derive/src/common/range_option.rs', 'validators-derive/src/common/length.rs', 'validators-derive/src/common/number.rs', 'validators-derive/src/common/boolean.rs', 'validators-derive/src/common/allow.rs', 'validators-derive/src/common/tri_allow.rs', 'validators-derive/src/common/case_option.rs', 'validators-derive/src/common/separator_option.rs'] + ['validators-derive/src/common/attributes/%s_attribute.rs' % x for x in ('base_xx', 'http_xx_url', 'ip_xx', 'range', 'utf8')] + [H + '%s/%s_attribute.rs' % (x, x) for x in ('bit', 'byte', 'domain', 'email', 'host', 'length', 'mac_address', 'number', 'phone', 'regex', 'uuid')],
    mech=[('attribute parsing and defaults', 'validators-derive/src/common/attributes')],
    modules=['p_spelling'], level='proof', technique='equality of the macro-expanded programs; where they differ, ' + ABS,
    rule='The program which the derive generates for each spelling must be the one it generates for the explicit spelling that the handler\'s property decides; if the texts differ, the handler\'s property is decided on that spelling by abstract interpretation.', floor=1500,
    assumptions=['equal token sequences of the expansion are equal programs (the generated code uses no span-dependent names)', 'the explicit spelling itself is decided by the properties of the handlers']),
'P25': dict(
    title='Any selection of validators and frameworks builds and offers what it documents',
    statement='With default features off, any selection of validator features (each alone included) together with derive, and with std, serde, rocket, axum, full or test added or not, builds; every documented configuration of the selected validators then compiles and implements its documented traits: its validation and rendering traits, Serialize and Deserialize with serde or axum, FromFormField and FromParam with rocket, IntoResponse for its error with axum, core::error::Error for its error. The validators other than domain, email, host, ip, ipv4, ipv6, url, http_url, http_ftp_url, phone and regex work in a no_std crate and link no std when std is off.',
    over=['configurations'], quant='163 feature selections (quick), about 820 (thorough, every pair of validators), each with the documented configurations of its validators',
    tests='the tests are compiled with every feature enabled',
    files=['validators/Cargo.toml', 'validators/src/lib.rs', 'validators/src/errors/mod.rs', 'validators/src/functions/mod.rs', 'validators/src/models/mod.rs', 'validators/src/traits/mod.rs', 'validators/src/traits/collection_length.rs', 'validators/src/result', 'validators-derive/Cargo.toml', 'validators-derive/src/lib.rs', 'validators-derive/src/supported_validators.rs', 'validators-derive/src/validator_handlers/mod.rs'],
    mech=[('features and conditional compilation', 'validators/src'), ('generated code per selection', H)],
    modules=['p_features'], level='exploration', technique='type-level witnesses: the compiler\'s type check of a generated crate per feature selection, and the crates its metadata links',
    rule='rustc must report no error in validators, validators-derive or the module of a documented configuration under the selection; trait bounds are asserted in the module; without std the crates linked (read from the metadata of the checked no_std crate) must not contain std.', floor=1300,
    assumptions=['cargo resolves the features as it does for a user', 'the type check of rustc decides whether a crate builds (no code is generated)']),
'P26': dict(
    title='An error\'s message states the broken rule and is the 400 answer in Axum',
    statement='The Display text of a validator error that wraps a parser\'s error is exactly the text of that error. Every other error has a fixed, non-empty text, its own among the rules of that validator, which states the rule: too large, small, long or short; must or must not (not found, not allowed) for ip, ipv4, local, port, padding, separator, comment and NaN; at least two labels or only one; the accepted protocols; invalid, forbidden or not decoded. Converting a parser\'s error (From) keeps it unchanged. With the axum feature, into_response of every validator error answers status 400 with exactly that text.',
    over=['inputs'], quant='every variant of the 30 error types, with any wrapped error',
    tests='the tests compare error values, never their texts, and do not enable axum',
    files=['validators/src/errors'],
    mech=[('messages', 'validators/src/errors'), ('answers', 'validators/src/errors/axum_traits.rs')],
    modules=['p_message'], level='proof', technique=ABS,
    rule='Display::fmt is interpreted on every variant with a recording formatter and symbolic wrapped errors; the text written must be the Display of the wrapped error, or a literal which names the rule of the variant and of no other; into_response must reach Axum\'s (StatusCode, text) answer with 400 and the same text.', floor=90,
    assumptions=['Axum\'s IntoResponse for (StatusCode, String) sets that status and that body']),
}
NA = []
