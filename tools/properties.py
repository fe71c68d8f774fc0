# The properties: the source of properties.jsonl.
U = 'src/vmime/'
def p(id, title, statement, over, q, why, files, mech, obs):
    return dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=[U + f for f in files], mech=[(n, U + w) for n, w in mech], obs=obs)
E_ = 'utility/encoder/'
ALL = [
p('C01', 'Transfer encodings round-trip every byte string',
  'For every byte string, encoding it with any of the library\'s content-transfer encoders (Base64, Quoted-Printable in its binary, text and header forms, uuencode, 7bit, 8bit, binary), at any maximum line length and however the input arrives in pieces, and then decoding the result yields exactly the original bytes. The encoding the library chooses by itself for a content carries it unchanged, is 7-bit clean and never has lines longer than 998 characters. The numbers of bytes the encoder and decoder report are those they wrote.',
  ['inputs', 'configurations'], 'all contents, all encoders, all maximum line lengths, all ways the input stream delivers its bytes',
  'encoder tests use a dozen sample strings delivered in one piece; a lost byte at a line, buffer or chunk boundary needs a specific content length and byte value',
  [E_ + 'b64Encoder.cpp', E_ + 'qpEncoder.cpp', E_ + 'uuEncoder.cpp', E_ + 'defaultEncoder.cpp', 'encoding.cpp'],
  [('encode and decode loops', E_ + 'b64Encoder.cpp'), ('qp escape, soft line breaks', E_ + 'qpEncoder.cpp'), ('uu lines', E_ + 'uuEncoder.cpp'), ('choice of encoding', 'encoding.cpp decide')], ['encoder::encode', 'encoder::decode', 'encoding::decide']),
p('C02', 'Encoded output obeys the line and alphabet rules of the encoding',
  'Whatever the content, Base64 output consists of complete padded quads from the Base64 alphabet; Quoted-Printable output contains only printable ASCII, complete upper-case hex escapes, no line that starts with a dot, no trailing blank, and (header form) only characters allowed in an encoded word; uuencoded lines carry the length they announce. Line breaks are CRLF, and lines never exceed the configured maximum (at most 76 characters).',
  ['inputs', 'configurations'], 'all contents up to the bound, around every position in a line, for several maximum line lengths',
  'tests compare a few outputs literally; which byte falls at the last columns of a line decides whether the limit is respected',
  [E_ + 'b64Encoder.cpp', E_ + 'qpEncoder.cpp', E_ + 'uuEncoder.cpp'], [('line length accounting', E_ + 'qpEncoder.cpp encode'), ('line length accounting', E_ + 'b64Encoder.cpp encode'), ('line length accounting', E_ + 'uuEncoder.cpp encode')], ['bytes written by encoder::encode']),
p('C03', 'Decoders accept anything safely and do not depend on chunking',
  'On any input at all, well formed or not, every content-transfer decoder terminates without reading or writing outside its buffers, reports the number of bytes it wrote, produces no more than it announced, and gives the same output however the input arrives in pieces. Any representation of a content that RFC 2045 allows (line breaks at any place between Base64 digits, either case of hex digits, soft line breaks anywhere, CRLF or LF) decodes to that content.',
  ['inputs', 'schedules'], 'all encoded inputs up to the bound (after several prefixes), all partitions of the input into reads',
  'received mail is attacker controlled; tests decode only the output of encoders, delivered in one read',
  [E_ + 'b64Encoder.cpp', E_ + 'qpEncoder.cpp', E_ + 'uuEncoder.cpp', E_ + 'defaultEncoder.cpp'], [('input buffers refilled at any position', E_ + 'qpEncoder.cpp decode'), ('quad assembly', E_ + 'b64Encoder.cpp decode'), ('line decoding', E_ + 'uuEncoder.cpp decode')], ['encoder::decode']),
p('C04', 'Size estimates are upper bounds',
  'The size announced in advance is never smaller than what is then produced: by every transfer encoder for a content of a given length, at any maximum line length, and by every header field, parameter, body, part and message for what it generates (the SMTP SIZE declaration and progress totals are computed from these).',
  ['inputs', 'configurations'], 'all content lengths up to the bound with contents alternating two arbitrary bytes; messages of several shapes, encodings, boundaries and line lengths',
  'estimates are hardly tested against real output, and line breaks, padding, boundaries and headers enter at specific lengths only',
  [E_ + 'b64Encoder.cpp', E_ + 'qpEncoder.cpp', E_ + 'uuEncoder.cpp', E_ + 'defaultEncoder.cpp', 'body.cpp', 'headerField.cpp', 'parameter.cpp'], [('getEncodedSize', E_ + 'b64Encoder.cpp'), ('getEncodedSize', E_ + 'qpEncoder.cpp'), ('getGeneratedSize', 'body.cpp'), ('getGeneratedSize', 'parameter.cpp')], ['encoder::getEncodedSize', 'component::getGeneratedSize']),
p('C05', 'Stream filters are exact and independent of chunking',
  'The line-ending, dot-stuffing and stop-sequence stream filters transform the whole byte sequence as if it came in one piece, however reads and writes are split: dot-stuffing then unstuffing gives back the data, CR LF becomes LF with every other byte kept, lone LF or CR becomes CR LF exactly once, and a stop sequence is found wherever it falls and never part of the data returned.',
  ['inputs', 'schedules'], 'all contents up to the bound over all bytes, all partitions into writes or reads',
  'tests cut a few samples at fixed places; a filter keeps one or two bytes of state, so a defect shows only for a specific cut between specific bytes',
  ['utility/filteredStream.cpp', 'utility/filteredStream.hpp'], [('state kept between calls', 'utility/filteredStream.cpp')], ['bytes written to the underlying stream', 'bytes returned by read']),
p('C06', 'Streams and content handlers deliver exactly the bytes they hold',
  'Reading any stream over strings, byte arrays, parts of another stream, or content handlers delivers exactly the bytes it was given, in order, whatever sizes are asked for and however often it is reset, skipped or extracted; limited and skipping streams never reach outside their part; extracting and generating content through a content handler with any pair of encodings preserves the decoded bytes; searching a token in a stream finds its first occurrence wherever it lies.',
  ['inputs', 'schedules'], 'all contents, offsets and read sizes up to the bound, all interleavings of read, skip, seek and reset',
  'the tests call each adapter in one or two fixed orders',
  ['utility/inputStreamStringAdapter.cpp', 'utility/inputStreamByteBufferAdapter.cpp', 'utility/seekableInputStreamRegionAdapter.cpp', 'utility/stream.cpp', 'utility/streamUtils.cpp', 'stringContentHandler.cpp', 'streamContentHandler.cpp'], [('position arithmetic', 'utility/seekableInputStreamRegionAdapter.cpp'), ('decode on extract, re-encode on generate', 'stringContentHandler.cpp')], ['read, skip, seek, getPosition, eof', 'contentHandler::generate/extract']),
p('C07', 'Message digests depend only on the bytes digested',
  'The MD5 and SHA-1 digests of a byte sequence equal the standard\'s definition, and are the same however the sequence is divided into updates and after a reset.',
  ['inputs', 'schedules'], 'all short contents and the block-boundary lengths, all splits into up to three updates',
  'tests digest a few vectors in one piece; buffering across 64-byte blocks has boundary cases at specific lengths and splits',
  ['security/digest/md5/md5MessageDigest.cpp', 'security/digest/sha1/sha1MessageDigest.cpp'], [('block buffering', 'security/digest/md5/md5MessageDigest.cpp update'), ('block buffering', 'security/digest/sha1/sha1MessageDigest.cpp update')], ['messageDigest::getDigest']),
p('C08', 'Encoded header text decodes to the text that was written',
  'Any text in a supported charset, generated as RFC 2047 header text with any folding limits and parsed back, gives the same characters: no character is lost, duplicated, split or merged, and whitespace between words survives. Decoding never depends on where lines were folded.',
  ['inputs', 'configurations'], 'all texts up to the bound (arbitrary bytes, valid UTF-8, blanks, encoded-word look-alikes), several line lengths and start columns',
  'tests compare a few strings; where a line break falls relative to multibyte characters, spaces and "=?" decides correctness',
  ['text.cpp', 'word.cpp', 'wordEncoder.cpp'], [('word splitting and folding', 'word.cpp generate'), ('per-word encoding', 'wordEncoder.cpp'), ('decoding and joining words', 'word.cpp parseWithState')], ['text::encodeAndFold', 'text::decodeAndUnfold', 'word::generate', 'word::parse']),
p('C09', 'Generated encoded words are valid and never split a character',
  'Every encoded word the library generates is at most 75 characters long (or as long as one character of its text needs), contains only characters RFC 2047 allows, decodes on its own to complete characters of its charset, is separated from its neighbours by linear white space, and the header line it stands on stays within the configured limit whenever a break was possible.',
  ['inputs', 'configurations'], 'all UTF-8 and single-byte texts up to the bound after fillers reaching each boundary, several line lengths and start columns',
  'a violation needs a multibyte character exactly at the end of an encoded word or a particular start column',
  ['wordEncoder.cpp', 'word.cpp'], [('chunk size computation', 'wordEncoder.cpp getNextChunk'), ('line length accounting', 'word.cpp generate')], ['generated header text']),
p('C10', 'Header values cannot inject lines or fields',
  'Whatever text, address, name, parameter or other structured value is put in a header field, the generated header block has exactly the fields that were set: every line break in it is CRLF followed by white space, and parsing it back finds the same number of fields with the same names.',
  ['inputs'], 'all values up to the bound (arbitrary bytes including CR, LF and NUL) for each kind of field value',
  'injection needs CR or LF bytes in values, which no test puts in each kind of value',
  ['headerField.cpp', 'header.cpp', 'word.cpp', 'mailbox.cpp', 'parameter.cpp'], [('encoding of unsafe text', 'wordEncoder.cpp'), ('quoting of parameter values', 'parameter.cpp generateImpl')], ['header::generate']),
p('C11', 'Parameters survive generation and parsing',
  'Any parameter name and value of a parameterized field (in any supported charset, of any length, with any quoting-relevant characters), generated in each supported RFC 2231 mode and parsed back, gives the same value (in RFC 2231 and combined modes with its charset); what is generated is well-formed RFC 2045/2231 syntax (but for an unencoded "*" in extended values); every RFC 2231 representation by another program is understood; and parsing any parameter text at all stays inside it.',
  ['inputs', 'configurations'], 'all values up to the bound, all generation modes, several line lengths; all parameter texts up to the bound',
  'continuations, percent-escapes and quoting interact at specific lengths and characters',
  ['parameter.cpp', 'parameterizedHeaderField.cpp'], [('mode selection and sectioning', 'parameter.cpp generateImpl'), ('section assembly', 'parameterizedHeaderField.cpp parseImpl')], ['parameterizedHeaderField::parse/generate']),
p('C12', 'Addresses survive generation and parsing',
  'Any mailbox (display name and address), list of mailboxes and named group, generated and parsed back, gives the same names (up to runs of blanks), local parts, domains and grouping, in the same order, whatever special characters the names and local parts contain, in classic and in internationalized mail.',
  ['inputs', 'configurations'], 'all display names, local parts, domains and group names up to the bound',
  'quoting decisions depend on single special characters, which tests sample one at a time',
  ['mailbox.cpp', 'mailboxGroup.cpp', 'addressList.cpp', 'emailAddress.cpp'], [('quoting of display names', 'mailbox.cpp generateImpl'), ('state machine of the parser', 'mailbox.cpp parseImpl'), ('local part quoting', 'emailAddress.cpp')], ['mailbox/mailboxList/addressList generate and parse']),
p('C13', 'Parsing any address text is safe and stable',
  'A comment anywhere RFC 5322 allows one changes neither the name, the local part, the domain nor the division of a list or a group; parsing arbitrary text as mailbox, mailbox list, address list or e-mail address terminates without reading outside the text, sets the parsed bounds within the text, does not depend on what surrounds the text or on what the object held before, and what was understood (if it has a local part and a domain of letters, digits, hyphens and dots) does not change when it is generated and parsed again.',
  ['inputs'], 'all texts up to the bound over the alphabet of address syntax, after several prefixes; all comments up to the bound in every place of several address forms',
  'address headers come from the network; malformed combinations of quotes, comments, brackets and groups are unbounded',
  ['address.cpp', 'mailbox.cpp', 'mailboxGroup.cpp', 'mailboxList.cpp', 'emailAddress.cpp'], [('parser state machines', 'mailbox.cpp parseImpl'), ('address splitting', 'address.cpp parseNext')], ['parse, getParsedOffset, getParsedLength, generate']),
p('C14', 'Header blocks parse safely and regenerate to an equal header',
  'Parsing any header block terminates safely with offsets inside the block; every well-formed field is found with its name and unfolded value in order; generating a parsed header of US-ASCII text and parsing it again gives the same fields; any sequence of insertions, removals, replacements and lookups behaves as on an ordered list; cloning or copying a header gives an equal and independent one.',
  ['inputs', 'histories'], 'all header blocks up to the bound, all fold positions; all short sequences of header operations',
  'folding, missing colons, bare CR/LF and empty values combine in ways samples do not cover',
  ['header.cpp', 'headerField.cpp'], [('field splitting', 'headerField.cpp parseNext'), ('ordered field list', 'header.cpp')], ['header::parse, generate, getFieldList']),
p('C15', 'Generated messages parse back to the same parts',
  'A message built from any tree of parts, with any part bodies in any transfer encoding (not containing the boundary itself when the caller chooses one), generated and parsed back, has the same parts in the same places with the same decoded bodies, and keeps its prolog and epilog; a message that was parsed keeps its parts and contents when it is generated and parsed again, and when it is cloned or copied.',
  ['inputs', 'configurations'], 'part trees and bodies up to the bound, bodies that imitate boundaries and end in any combination of line breaks',
  'it takes a body that resembles the chosen boundary or ends at a specific line-break state',
  ['body.cpp', 'bodyPart.cpp', 'message.cpp'], [('boundaries between parts', 'body.cpp generateImpl'), ('boundary search', 'body.cpp findNextBoundaryPosition')], ['message::generate, message::parse']),
p('C16', 'Parsing any message is safe and finds its RFC 2046 structure',
  'Parsing any byte sequence as a message terminates without memory errors; the parts of a multipart body are exactly the regions between its delimiter lines (up to the end of the body if the closing one is missing), every component lies inside its parent, the content of a body is exactly the bytes of its region, and nothing of this depends on what surrounds the message in its buffer or on whether it comes from a string or from a stream that delivers in any pieces.',
  ['inputs', 'schedules'], 'all messages up to the bound made of header lines, boundaries, and arbitrary bytes; all cuts of the source up to the bound',
  'input is attacker controlled; tests use well-formed samples and a few historical bugs',
  ['body.cpp', 'bodyPart.cpp', 'message.cpp', 'utility/parserInputStreamAdapter.cpp', 'component.cpp'], [('recursive part parsing', 'body.cpp parseImpl'), ('offset bookkeeping', 'component.cpp')], ['message::parse', 'getParsedOffset/getParsedLength']),
p('C17', 'Dates convert, compare and round-trip exactly',
  'Every valid date and time from the year 1000 on, with any zone of at most 99 hours and 59 minutes, generated in RFC 822 form and parsed back, is the same; conversion to universal time and to any zone denotes the same instant with every field in range, comparison agrees with the instants denoted, and the day of the week, the week of the year and the length of months follow the Gregorian calendar. Parsing any text gives a date that exists (every field in range, the day in its month) and can be generated; it depends on that text alone, neither on what surrounds it nor on what the object held before, and well-formed RFC 822 dates have the meaning RFC 822 gives them (two-digit years from 70 on are in the 20th century).',
  ['inputs'], 'all years, months, days, times and zones within the stated range, all date texts up to the bound',
  'month and year ends, leap years and zone carries are sampled at a handful of dates',
  ['dateTime.cpp', 'utility/datetimeUtils.cpp'], [('zone arithmetic', 'utility/datetimeUtils.cpp toUniversalTime, toLocalTime'), ('parser', 'dateTime.cpp parseImpl')], ['datetime::generate, parse, comparison operators', 'datetimeUtils']),
p('C18', 'URLs round-trip and never mix their components',
  'For any lower-case protocol, user name, password, non-empty host, port from 1 to 65534 or unspecified, path and parameters (for the file protocol: path and parameters only), writing the URL as text and reading it back gives the same components. Percent-encoding and decoding are inverse and encoded text holds no separator. Reading any text either fails with malformed_url, leaving the object as it was, or gives components that are the same after writing and reading them again; well-formed URLs give the components RFC 3986 delimits.',
  ['inputs'], 'all component values and URL texts up to the bound',
  'separators inside components (@, :, /, ?, %) decide; tests use a few',
  ['utility/url.cpp', 'utility/urlUtils.cpp'], [('parser', 'utility/url.cpp parse'), ('percent coding', 'utility/urlUtils.cpp')], ['url::build, url parsing']),
p('C19', 'Path operations keep the hierarchy consistent',
  'Appending, taking the parent, comparing and testing for ancestry of file and folder paths agree with the list-of-components meaning for any components in any charset: a child\'s parent is the path, a path is the parent of exactly its extensions, renaming a prefix changes exactly the paths under it, and a path written with a separator that no component contains is read back the same.',
  ['inputs', 'histories'], 'all paths up to the bound in number and length of components',
  'tests use a few literal paths',
  ['utility/path.cpp'], [('component list', 'utility/path.cpp')], ['path operations']),
p('C20', 'Modified UTF-7 folder names round-trip and never leak the separator',
  'Any Unicode folder name, encoded as IMAP modified UTF-7 and decoded, gives the same name; the encoded form is printable ASCII and contains the hierarchy separator only between components, so that a folder path maps to one mailbox name and back.',
  ['inputs', 'configurations'], 'all names of valid UTF-8 up to the bound, separators / . ^ | and backslash',
  'needs particular transitions between direct and encoded runs',
  ['net/imap/IMAPUtils.cpp'], [('encoder and decoder', 'net/imap/IMAPUtils.cpp toModifiedUTF7, fromModifiedUTF7'), ('path mapping', 'net/imap/IMAPUtils.cpp pathToString, stringToPath')], ['mailbox names in commands and listings']),
p('C21', 'Maildir file names keep identity, flags and containment',
  'For any message identifier (one with no ":" that does not itself end with flags) and flag set, the file name made of them gives back the same identifier and flags, and changing the flags leaves the identifier unchanged; any folder path either is refused with invalid_folder_name or maps to a directory inside the maildir root, with distinct folders in distinct directories and names listed as they were created; destroying or renaming a folder affects that folder and the folders below it, no other.',
  ['inputs'], 'all names up to the bound, all flag sets, all folder paths up to the bound, both directory layouts',
  'tests use ordinary names; separators, dots and escapes in names decide containment',
  ['net/maildir/maildirUtils.cpp', 'net/maildir/format/kmailMaildirFormat.cpp', 'net/maildir/format/courierMaildirFormat.cpp'], [('flag suffix', 'net/maildir/maildirUtils.cpp'), ('folder name encoding', 'net/maildir/format/courierMaildirFormat.cpp')], ['file and directory names used']),
p('C22', 'Maildir operations are all-or-nothing and keep the messages',
  'Adding, copying, flagging or expunging messages of a maildir folder, interrupted by a failure, short transfer or the end of the process at any single file-system operation, never leaves a partial message visible: a message appears in cur or new only after it was completely written, and an existing message is neither lost nor altered, keeps its identity, and is found by the next session; and after any sequence of operations without failure the folder holds exactly the messages, numbers and flags the operations imply, and a message number or folder that does not exist is refused.',
  ['fault_sequences', 'crash_points'], 'every file-system operation of add, copy, set-flags and expunge failing in turn, all short message contents and flags',
  'the tests never make a file-system operation fail',
  ['net/maildir/maildirFolder.cpp'], [('write to tmp then rename', 'net/maildir/maildirFolder.cpp copyMessageImpl, addMessage')], ['file-system calls']),
p('C23', 'Message sets denote exactly the messages given',
  'A message set built from any list of numbers or UIDs, or from ranges, denotes exactly those messages once each, merging adjacent numbers into ranges and including open-ended ranges (UIDs that are not all numbers are kept one by one); an empty list gives an empty set, zero is refused; its text form is a valid IMAP sequence set with the same meaning, its expansion for POP3 and maildir lists the same messages, and copies of a set are equal and independent.',
  ['inputs'], 'all lists of up to the bound of arbitrary numbers',
  'merging has edge cases at duplicates, adjacency, order and extreme values',
  ['net/messageSet.cpp', 'net/imap/IMAPUtils.cpp'], [('range merging', 'net/messageSet.cpp byNumber, byUID'), ('text form', 'net/imap/IMAPUtils.cpp messageSetToSequenceSet')], ['messageSet ranges', 'sequence set text']),
p('C24', 'IMAP responses parse safely and independently of fragmentation',
  'Parsing any server byte stream terminates without memory errors, either yielding a response or the documented exception; the result does not depend on how the bytes arrive from the network; and every value of a response that follows the grammar (strings, literals, numbers, dates, flags, sets, envelopes, body structures, response codes, tags) is the one sent, with literal data never interpreted as protocol.',
  ['inputs', 'schedules'], 'all response texts up to the bound after valid prefixes, all fragmentations',
  'tests feed complete well-formed lines',
  ['net/imap/IMAPParser.hpp'], [('recursive-descent parser', 'net/imap/IMAPParser.hpp'), ('line reader', 'net/imap/IMAPParser.hpp readLine')], ['IMAPParser::readResponse']),
p('C25', 'IMAP commands cannot be altered by their arguments',
  'Every IMAP command sent is exactly one line: whatever user name, password, mailbox name, header name or search text it carries, the argument is sent so that the server reads back the same value and nothing else, or refused if it has a line end; search keys keep the meaning asked for.',
  ['inputs'], 'all argument values up to the bound, each command',
  'tests use plain values; injection needs quotes, backslashes, CR or LF',
  ['net/imap/IMAPCommand.cpp', 'net/imap/IMAPUtils.cpp'], [('quoting', 'net/imap/IMAPUtils.cpp quoteString'), ('command text', 'net/imap/IMAPCommand.cpp')], ['text sent to the socket']),
p('C26', 'SMTP replies are read exactly, however they are fragmented',
  'Any SMTP server byte stream is parsed into replies line by line: the code, enhanced status code and text of a multi-line reply are those sent, fragmentation does not matter, pipelined replies are kept apart; a code that is not three digits, or that is not the same on all lines, is read as 0 (an error), and a stream that ends early ends in a documented exception.',
  ['inputs', 'schedules'], 'all reply texts up to the bound, all fragmentations',
  'tests deliver canned replies whole',
  ['net/smtp/SMTPResponse.cpp'], [('line state machine', 'net/smtp/SMTPResponse.cpp readResponse, getNextResponse')], ['SMTPResponse::readResponse']),
p('C27', 'SMTP DATA and BDAT carry the message unchanged',
  'For any message content and any way it is produced in pieces, an SMTP server that removes dot-stuffing (DATA) or joins the chunks (BDAT) obtains exactly the message (DATA: followed by CRLF); the end-of-data marker appears exactly once, at the end; chunk sizes announced equal the bytes that follow.',
  ['inputs', 'schedules'], 'all contents up to the bound and sizes around the chunk limit, all partitions into writes',
  'needs dots and line breaks falling on write boundaries',
  ['net/smtp/SMTPTransport.cpp', 'net/smtp/SMTPChunkingOutputStreamAdapter.cpp', 'utility/filteredStream.cpp'], [('dot stuffing', 'utility/filteredStream.cpp dotFilteredOutputStream'), ('chunking', 'net/smtp/SMTPChunkingOutputStreamAdapter.cpp')], ['bytes sent to the socket']),
p('C36', 'An SMTP message is accepted whole, for its recipients only',
  'Whatever commands and messages the server refuses, with or without pipelining and chunking, over several messages on one connection: every message the server accepts is one the application sent, whole, with exactly its sender and recipients; send() returns without error if and only if the server accepted it, once; and no address, whatever it contains, adds a command or a parameter.',
  ['inputs', 'histories'], 'all choices of refusals over sessions of several messages, all addresses up to the bound',
  'tests script one reply sequence at a time; needs a refusal in a pipelined envelope and a later message',
  ['net/smtp/SMTPTransport.cpp', 'net/smtp/SMTPCommandSet.cpp', 'net/smtp/SMTPCommand.cpp'], [('envelope', 'net/smtp/SMTPTransport.cpp sendEnvelope'), ('commands', 'net/smtp/SMTPCommand.cpp')], ['what the server receives and accepts']),
p('C28', 'POP3 replies and messages are read exactly',
  'Any POP3 reply is read safely and exactly: its status, its text, and the lines of a multi-line body with their dot-stuffing removed (and surrounding blanks) are those sent, however the bytes are fragmented and with CRLF or LF line ends; the terminator is recognised where it stands and nowhere else; a message retrieved is, byte for byte, the one the server has, without the line end before the terminator; an error reply is reported at once, also to a command that expects several lines; a LIST or UIDL listing gives each message its own value.',
  ['inputs', 'schedules'], 'all reply texts up to the bound, all fragmentations',
  'tests deliver canned replies whole',
  ['net/pop3/POP3Response.cpp', 'net/pop3/POP3Utils.cpp'], [('terminator search', 'net/pop3/POP3Response.cpp'), ('UIDL and LIST parsing', 'net/pop3/POP3Utils.cpp')], ['POP3Response::readResponse, readMultilineResponse, readLargeResponse']),
p('C37', 'POP3 sessions act on the messages named and report what the server did',
  'Whatever commands a POP3 server refuses, each operation on a folder acts on the messages it names: UIDs, sizes, headers and contents are those of the message with that number, a message is marked as deleted exactly when the server has deleted it, a deletion reported as done deletes all its messages, closing without expunging keeps every message, a request for a part of a message is refused, and every reply is read; user name and password are sent unaltered, each in one command, or refused, never as further commands, and the store is connected exactly when the server accepted them.',
  ['inputs', 'histories'], 'all histories of operations and refusals up to the bound, all credentials up to the bound',
  'tests never run a session',
  ['net/pop3/POP3Folder.cpp', 'net/pop3/POP3Message.cpp', 'net/pop3/POP3Connection.cpp', 'net/pop3/POP3Command.cpp'], [('deletion', 'net/pop3/POP3Folder.cpp deleteMessages'), ('retrieval', 'net/pop3/POP3Message.cpp extract'), ('authentication', 'net/pop3/POP3Connection.cpp authenticate')], ['POP3Store::connect, POP3Folder, POP3Message']),
p('C40', 'IMAP sessions act on the messages named and keep up with the server',
  'Whatever an IMAP server refuses and whatever another client does meanwhile, each operation on a folder acts on exactly the messages it names and has the effect it reports: the count, the numbers, UIDs and flags of messages, the expunged messages and the events told to listeners follow the responses of the server; messages, parts and ranges extracted are those asked for or an error is given; messages added, copied or deleted, the mode and attributes of a folder, its sub-folders after a creation, a removal or a renaming are those of the server; an operation refused fails; a message once expunged is never mistaken for another; every reply is read and only commands of the protocol are sent.',
  ['inputs', 'histories', 'schedules'], 'all histories of operations, refusals and changes by another client up to the bound; all part texts up to the bound',
  'tests never run an IMAP session with unsolicited responses; renumbering needs an expunge between two operations',
  ['net/imap/IMAPFolder.cpp', 'net/imap/IMAPMessage.cpp', 'net/imap/IMAPFolderStatus.cpp', 'net/imap/IMAPMessagePart.cpp', 'net/imap/IMAPMessagePartContentHandler.cpp', 'net/imap/IMAPUtils.cpp'], [('status updates', 'net/imap/IMAPFolder.cpp processStatusUpdate'), ('extraction', 'net/imap/IMAPMessage.cpp extractImpl'), ('sub-folders', 'net/imap/IMAPFolder.cpp getFolders, rename')], ['IMAPStore::connect, IMAPFolder, IMAPMessage']),
p('C29', 'Property sets keep and parse exactly what was set',
  'Setting, replacing, removing and reading properties behaves as a case-insensitive map from names to values, conversions between text, numbers and booleans are exact, and parsing a property text yields the listed names and values, quoting included.',
  ['inputs', 'histories'], 'all names and values up to the bound, all sequences of operations up to the bound',
  'tests use fixed samples',
  ['propertySet.cpp'], [('property list', 'propertySet.cpp')], ['propertySet operations']),
p('C30', 'When TLS is required no credentials travel in clear',
  'With a connection configured to require TLS (connection.tls and connection.tls.required, or the SMTPS, IMAPS and POP3S services), whatever the server answers, no authentication command, user name or password is sent before the TLS session is established, for SMTP, IMAP and POP3; when TLS is refused or fails the connection fails. A service says its connection is secured exactly when it is, and what was received in clear is never taken as the answer to a command sent under TLS.',
  ['inputs', 'histories'], 'all server reply sequences over the bound of each step, all configurations of the TLS properties',
  'an adversarial server chooses the replies; tests script a few',
  ['net/smtp/SMTPConnection.cpp', 'net/imap/IMAPConnection.cpp', 'net/pop3/POP3Connection.cpp'], [('STARTTLS sequence', 'net/smtp/SMTPConnection.cpp connect'), ('STARTTLS sequence', 'net/imap/IMAPConnection.cpp connect'), ('STLS sequence', 'net/pop3/POP3Connection.cpp connect')], ['bytes sent on the clear socket']),
p('C31', 'The certificate verifier accepts only what it should',
  'The default certificate verifier accepts a chain if and only if it is not empty, every certificate of it is an X.509 certificate valid at the current time, each one is issued by the next (the names match, the next is a CA and did sign it), either the last is issued by a root CA given (itself valid) or the first is exactly one of the trusted certificates given, and the first matches the host name; otherwise it raises a certificate exception. Certificates imported are exactly those exported, and certificates are equal only when they are the same.',
  ['inputs'], 'all outcomes of each certificate operation (validity, issuance, trust, identity) for chains up to the bound',
  'tests would need a certificate for every combination of failures',
  ['security/cert/defaultCertificateVerifier.cpp', 'security/cert/X509Certificate.cpp', 'security/cert/gnutls/X509Certificate_GnuTLS.cpp', 'security/cert/certificateChain.cpp'], [('chain walk', 'security/cert/defaultCertificateVerifier.cpp verifyX509'), ('issuance', 'security/cert/gnutls/X509Certificate_GnuTLS.cpp checkIssuer')], ['verify() returning or throwing']),
p('C32', 'Messages built with the builder are read back by the parser',
  'A message built with the message builder (any text, HTML text and embedded objects, sender, recipients, subject and attachments given as data, files or already encoded) is a 7-bit message which, parsed from its generated form, gives back the same text parts, charsets, objects, sender, recipients, subject and attachment names, descriptions, types and data. Adding an attachment to any message keeps its fields, texts and attachments and adds exactly that one. The message parser finds in any message the texts that are not attachments and the parts marked or typed as attachments, with their data.',
  ['inputs', 'configurations'], 'all short texts, names and attachment contents, combinations of parts',
  'the existing tests hardly cover attachments; contents and names decide encodings and quoting',
  ['messageBuilder.cpp', 'messageParser.cpp', 'attachmentHelper.cpp', 'fileAttachment.cpp', 'defaultAttachment.cpp', 'plainTextPart.cpp', 'htmlTextPart.cpp'], [('assembly', 'messageBuilder.cpp construct'), ('recovery', 'messageParser.cpp parse'), ('attachments', 'attachmentHelper.cpp addAttachment')], ['messageParser accessors', 'attachmentHelper']),
p('C33', 'Read receipts carry what they were built with',
  'The disposition of a read receipt, generated and parsed back, gives the same modes, type and modifiers, whatever the case and blanks; parsing any text is safe. A receipt built for a message is a 7-bit message recognised as a receipt, holding the text, charset, agent, final recipient, identifier of the original message, disposition and additional fields it was built with, and the header of the message. A receipt may be sent to each address it was asked for, and needs a confirmation unless it goes to the return path alone.',
  ['inputs', 'histories'], 'all values up to the bound', 'tests use few values',
  ['disposition.cpp', 'mdn/MDNHelper.cpp'], [('parser', 'disposition.cpp parseImpl'), ('receipts', 'mdn/MDNHelper.cpp buildMDN')], ['disposition::parse/generate', 'MDNHelper']),
p('C34', 'Charset conversion is exact and independent of chunking',
  'Converting text between two charsets gives the same characters in the other charset, the same for a string, an input stream and a filtered output stream fed in any pieces, without losing a character or an escape sequence at a boundary. Illegal bytes and characters the destination lacks are replaced as the options say, or, when asked for, reported, with the text before illegal bytes converted and the number of bytes read and written told. A text is valid exactly if all its bytes are. A domain label becomes its RFC 3492 form and comes back; what is no such label is left as it is.',
  ['inputs', 'schedules'], 'all texts and partitions up to the bound',
  'needs multibyte characters on buffer boundaries',
  ['charsetConverter_icu.cpp', 'charsetConverter_idna.cpp', 'charset.cpp'], [('conversion loop', 'charsetConverter_icu.cpp'), ('labels', 'charsetConverter_idna.cpp')], ['charsetConverter::convert', 'filtered stream']),
p('C35', 'Small structured fields survive generation and parsing',
  'Media types, content dispositions, message identifiers and their lists, encodings, relay (Received) values and return paths, generated and parsed back, give the same value; so do the importance of a message and its reset. Well-formed values of other programs, with comments, quoted parts, blanks and folding, are read as written. Parsing any text for them is safe, depends on that text alone (not on what surrounds it nor on what the object held), and what was understood is stable under regeneration. Copies and clones are equal, keep usage and language, and are independent.',
  ['inputs'], 'all values and texts up to the bound for each kind of field',
  'tests use a few samples of each',
  ['mediaType.cpp', 'contentDisposition.cpp', 'messageId.cpp', 'messageIdSequence.cpp', 'encoding.cpp', 'relay.cpp', 'path.cpp', 'word.cpp', 'misc/importanceHelper.cpp'], [('parsers', 'mediaType.cpp parseImpl'), ('parsers', 'messageId.cpp parseImpl'), ('parsers', 'relay.cpp parseImpl')], ['component parse/generate']),
p('C42', 'Lists and values of the object model behave as lists and values',
  'Whatever the sequence of appending, inserting, removing and clearing, lists of addresses, mailboxes (groups included), identifiers, words and parameters hold exactly what a list would, in order, through every accessor, and an operation on a place that does not exist is refused and changes nothing. Copies and clones are equal and independent, element by element, and assigning a list or a value to itself changes nothing. Conversion between lists of addresses and mailboxes keeps every mailbox in order. Two values are equal exactly if what makes them is equal (ignoring case where case does not matter), and equality is reflexive and symmetric.',
  ['histories', 'inputs'], 'all sequences of operations and values up to the bound',
  'tests build a few lists; insertion next to an element, copies, self-assignment and comparisons are hardly tested',
  ['addressList.cpp', 'mailboxList.cpp', 'mailboxGroup.cpp', 'messageIdSequence.cpp', 'text.cpp', 'parameterizedHeaderField.cpp', 'mediaType.cpp', 'encoding.cpp', 'contentDisposition.cpp'], [('lists', 'addressList.cpp'), ('lists', 'messageIdSequence.cpp'), ('lists', 'mailboxGroup.cpp'), ('comparisons', 'contentDisposition.cpp operator==')], ['list operations', 'comparison operators']),
p('C41', 'Parts of a message stay where they were put',
  'Whatever the sequence of appending, inserting, moving, removing, copying and replacing parts and bodies, parsed or built, each part is in at most one body, at the place it was put, knows the part that holds it (and no other once removed or once its holder is destroyed), an operation that fails changes nothing, copies are independent, and the generated text holds exactly those parts in that order.',
  ['histories'], 'all sequences of operations up to the bound',
  'tests build fixed trees; moving, re-adding and outliving parts are not tested',
  ['body.cpp', 'bodyPart.cpp'], [('part list', 'body.cpp insertPartBefore'), ('parents', 'bodyPart.cpp setBody')], ['body part list operations']),
p('C38', 'SASL exchanges send what the mechanism says, and its layer loses nothing',
  'For SMTP, POP3 and IMAP, whatever the challenges and decisions of the server, every challenge reaches the mechanism as sent, every response of the mechanism is sent Base64-coded on one line and nothing else is, an error of the mechanism cancels the exchange, the mechanisms are tried in turn, and the connection is authenticated exactly when the server accepts. From then on all data passes through the security layer of the mechanism in both directions, without losing, repeating or altering a byte whatever the fragmentation.',
  ['inputs', 'histories', 'schedules'], 'all challenges and responses up to the bound, all decisions of the server and of the mechanism, all fragmentations',
  'no test runs a SASL exchange or a security layer',
  ['security/sasl/SASLSession.cpp', 'security/sasl/SASLSocket.cpp', 'net/smtp/SMTPConnection.cpp', 'net/pop3/POP3Connection.cpp', 'net/imap/IMAPConnection.cpp'], [('exchange', 'net/smtp/SMTPConnection.cpp authenticateSASL'), ('exchange', 'net/imap/IMAPConnection.cpp authenticateSASL'), ('exchange', 'net/pop3/POP3Connection.cpp authenticateSASL'), ('layer', 'security/sasl/SASLSocket.cpp')], ['bytes on the socket', 'socket::receiveRaw/sendRaw']),
p('C39', 'TLS sockets verify the server before any data, and carry the data unchanged',
  'Whatever the network does (partial writes, stalls, fragments, errors), a TLS socket (GnuTLS) is connected only after a complete handshake in which the certificate verifier accepted the chain presented by the peer, for the server name asked for; otherwise connecting fails with the TLS, certificate or network error, and no application data is sent. Once connected, the bytes received and sent are exactly those of the peer and of the caller, in order, errors of the network are passed on to the caller, reading from a connection closed by the peer fails, and certificates and sessions are released.',
  ['inputs', 'schedules', 'fault_sequences'], 'all data up to the bound, all divisions into records and network pieces, every operation failing or stalling',
  'no test runs a TLS session; the failing and stalling operations are many',
  ['net/tls/gnutls/TLSSocket_GnuTLS.cpp', 'net/tls/gnutls/TLSSession_GnuTLS.cpp', 'net/tls/TLSSession.cpp'], [('handshake', 'net/tls/gnutls/TLSSocket_GnuTLS.cpp handshake'), ('records', 'net/tls/gnutls/TLSSocket_GnuTLS.cpp receiveRaw')], ['TLSSocket::connect/handshake/send/receive']),
p('C43', 'What is read of a maildir message is what is in its file',
  'Whatever a message of a maildir folder contains, extracting it, one of its parts or a range of either gives exactly the bytes of the file in that range (nothing beyond the end of the message or of the part, whatever the start and length asked for); its structure has the parts of the message, each with its header, type and size; its header fields are those of the message wherever the header ends; and the message parsed from the folder is the one parsed from the file.',
  ['inputs'], 'all contents up to the bound, every part, ranges from the start, around the end and beyond it',
  'tests read whole messages; ranges and parts of a maildir message are not tested',
  ['net/maildir/maildirMessage.cpp', 'net/maildir/maildirMessagePart.cpp', 'platforms/posix/posixFile.cpp'], [('reading a range', 'net/maildir/maildirMessage.cpp extractImpl'), ('structure and header', 'net/maildir/maildirMessage.cpp fetch'), ('part header', 'net/maildir/maildirMessage.cpp fetchPartHeader')], ['message::extract/extractPart/fetchPartHeader/getParsedMessage']),
p('C44', 'A file attached to a message is found as it was',
  'Whatever its contents, and whether it is attached by its path, as a content or as a copy of one, a file attached to a message is found in the message with its data, its name, its size, the dates given and no other, its type, its description and the encoding asked for, however many times the message is generated; what is not a file is not attached, and a file that cannot be read raises an error, never a shorter content. The information about a file and its attachment are values: copies are equal and independent.',
  ['inputs', 'histories', 'fault_sequences'], 'all contents, names and descriptions up to the bound, all sets of dates, all sequences of operations on two descriptions of files, failing calls',
  'tests attach data in memory; files, their dates, their copies and their failures are not tested',
  ['fileAttachment.cpp', 'fileContentHandler.cpp', 'streamContentHandler.cpp', 'contentDispositionField.cpp', 'platforms/posix/posixFile.cpp'], [('attaching', 'fileAttachment.cpp setData'), ('generating', 'fileAttachment.cpp generatePart'), ('information', 'fileAttachment.cpp fileInfo'), ('contents', 'fileContentHandler.cpp setData')], ['fileAttachment', 'fileContentHandler', 'messageParser']),
]
NA = {}
