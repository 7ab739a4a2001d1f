#!/usr/bin/env python3
"""Regenerates properties.jsonl (one place to edit the property texts)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      observe_at=[observe])))
T="src/crashmail/"
p("C01","Tossing hostile mail never corrupts memory, crashes or hangs",
 "Whatever bytes arrive in the inbound directory (packets, messages, kludges, addresses, area tags, robot requests), a toss run never reads or writes outside its objects, never acts on memory it has not set, never hits undefined behaviour, never dies from a signal and always ends by itself. This holds for every configuration of areas, filters and message bases that the program accepts.",
 ["inputs","configurations"],"all byte strings presented as packets x all accepted configurations",
 "The tests feed two well-formed packets through an uninstrumented binary; the packet parser takes arbitrary remote bytes.",
 [T+"pkt.c",T+"handle.c",T+"misc.c",T+"mb_msg.c",T+"mb_jam.c",T+"areafix.c",T+"memmessage.c",T+"dupe.c",T+"filter.c"],
 [("packet reader","pkt.c ReadPkt"),("message handling","handle.c HandleMessage"),("kludge parsing","misc.c ProcessKludge"),("message base import","mb_jam.c jam_ImportFunc, mb_msg.c msg_ImportFunc"),("AreaFix robot","areafix.c AreaFix")],
 "ASan/UBSan reports, exit status and termination of crashmail TOSS")
p("C02","Toss conserves mail: each message exactly once to each place it belongs",
 "After a successful toss every message of every readable inbound packet or bundle is present exactly once in each destination the configuration gives it: its local message base, one copy per recipient system, or the BAD area, unless it was discarded as a duplicate, an empty message or by a kill filter. Nothing that was not received appears, and messages keep the order in which they arrived. Fully processed packets and bundles disappear from the inbound; an unreadable one stays there under a .bad name with its bytes unchanged, and no other inbound file is touched.",
 ["inputs","configurations"],"all multisets of inbound packets and bundles x configurations",
 "The tests toss one packet with one message; conservation is a statement about every mix of packets, sizes, errors and configurations.",
 [T+"toss.c",T+"pkt.c",T+"handle.c",T+"outbound.c",T+"safedel.c"],
 [("inbound sweep","toss.c TossDir/TossFile/TossBundle"),("deferred deletion","safedel.c ProcessSafeDelete"),("bad packets","toss.c BadFile")],
 "message bases, outbound packets and bundles, inbound directory after crashmail TOSS")
p("C03","Echomail goes to exactly the subscribed systems that have not seen it",
 "A tossed or scanned echomail message is forwarded once to every system linked to its area, except the system it came from, passive systems, systems linked write-only and, where seen-by checking applies, systems already listed as having seen it; rescanned messages and messages from unlinked senders are not forwarded. Nobody else gets a copy. Pass-through areas forward without storing a local copy.",
 ["inputs","configurations"],"all link lists, link modes, node flags, seen-by lists and senders",
 "The tests have one area with three links and check that one outbound file exists.",
 [T+"handle.c",T+"scan.c",T+"pkt.c"],
 [("distribution loop","handle.c HandleEchomail"),("link modes","config.c EXPORT"),("seen-by check","handle.c CHECKSEENBY")],
 "echomail packets produced per node")
p("C04","SEEN-BY and PATH control lines are complete, sorted and loop-safe",
 "Every forwarded echomail message carries seen-by lines listing exactly the systems already listed (unless it crosses zones, or the link asks for tiny or no seen-bys), this system, the same-zone links it was sent to and the configured additions, minus the configured removals, sorted, without repetition and with correct net abbreviation; and a path that is the received path followed by this system once. No entry of a standard control line (up to 80 characters) is lost, invented or altered, whatever the number of systems, zones or points involved.",
 ["inputs","configurations"],"all received seen-by/path lists x link lists x area options",
 "The tests never look at the seen-by or path of a forwarded message.",
 [T+"handle.c",T+"memmessage.c",T+"pkt.c",T+"node4dpat.c"],
 [("seen-by building","handle.c HandleEchomail; memmessage.c mmAddNodes2DList/mmSortNodes2D/mmMakeSeenByBuf"),("path","memmessage.c mmAddPath")],
 "SEEN-BY/PATH lines in outbound packets and imported messages")
p("C05","Unauthorised mail is never accepted as echomail",
 "Echomail reaches a conference (local base or other links) only if the packet's password is right when the sending system has one, the sender is linked to that conference with write access and the conference is confirmed; otherwise the message goes to the BAD area only, with the reason, or the whole packet is set aside. Netmail from a system with a wrong packet password is likewise kept out unless that system is exempted, and a packet addressed to another system is set aside when destination checking is on. Switching security off on the command line is the only way around these checks.",
 ["inputs","configurations"],"all senders, passwords, link modes and switches",
 "The tests use no passwords and one linked sender.",
 [T+"pkt.c",T+"handle.c",T+"toss.c"],
 [("packet password","pkt.c ReadPkt"),("link check","handle.c HandleEchomail"),("destination check","pkt.c CHECKPKTDEST")],
 "BAD area, area contents and outbound packets")
p("C06","Duplicate detection drops every repeat it can remember and nothing else",
 "A second arrival of a message with the same message identifier in the same area, while the first is still among the most recent identifiers the duplicate file can hold, is never imported or forwarded again and is dropped or put in BAD as configured; a message whose identifier (first 79 characters) or area differs is never treated as a duplicate. This holds across runs and restarts, for every identifier, for messages without one, and after the file has wrapped around; areas exempted from the check accept repeats.",
 ["inputs","histories"],"all sequences of arrivals over any number of runs, all identifiers, all file sizes",
 "The tests toss a message once; the history of arrivals is the whole point.",
 [T+"dupe.c",T+"handle.c"],
 [("duplicate database","dupe.c OpenDupeDB/CheckDupe/CloseDupeDB"),("area exemption","handle.c IGNOREDUPES")],
 "which arrivals are imported and forwarded over a history of runs")
p("C07","Netmail is delivered locally or routed by the first matching rule",
 "Netmail addressed to this system (or to a system imported here) is stored in the right netmail area; all other netmail leaves exactly once, for the system and with the priority given by the first matching routing rule, the last matching change rule and the message's own attributes, with a trace line added and its addressing information correct for zones and points. Netmail that no rule covers goes to BAD.",
 ["inputs","configurations"],"all addresses, attributes, routing tables, change rules, flavours",
 "The tests route one netmail; routing tables and pattern matches are unbounded.",
 [T+"handle.c",T+"node4dpat.c",T+"pkt.c",T+"scan.c"],
 [("routing","handle.c HandleNetmail"),("patterns","node4dpat.c Compare4DPat/ExpandNodePat/iswildcard"),("packet flavours","pkt.c WriteNetMail")],
 "netmail areas and outbound packets/flow priority")
p("C08","Message content survives tossing, storing and forwarding unchanged",
 "Sender, recipient, subject, date, addresses, attributes that may travel, message identifiers, other control lines and every byte and line of the text (except the routing and control lines the program must rewrite) are the same in the stored message and in every forwarded copy as in the received packet, for every message length and both message base formats. Stored messages exported again yield the same content.",
 ["inputs"],"all message texts (length, line structure, characters), header strings, dates and control lines",
 "The tests compare no message content at all.",
 [T+"pkt.c",T+"memmessage.c",T+"mb_msg.c",T+"mb_jam.c",T+"handle.c","src/jamlib/message.c"],
 [("chunked text","memmessage.c mmAddBuf"),("MSG","mb_msg.c"),("JAM","mb_jam.c"),("packet writer","pkt.c WriteMsgHeader/WritePacket")],
 "stored messages and outbound packets compared with the input")
p("C09","JAM message bases stay structurally valid and correctly linked",
 "After any sequence of imports, scans and maintenance runs each JAM base satisfies its format: header counts, base numbers, index entries, text extents, subfield lengths, name checksums, message identifier and reply checksums and modification counter all agree with the messages actually stored. Reply links connect exactly the messages that answer each other, without cycles, never to a different message after maintenance, and messages stored by other programs are left unchanged.",
 ["inputs","histories"],"all histories of imports, scans and maintenance on a base, all message contents",
 "The tests use only *.msg bases; JAM code is never run.",
 [T+"mb_jam.c","src/jamlib/mbase.c","src/jamlib/message.c","src/jamlib/subpack.c","src/tools/crashmaint.c"],
 [("import","mb_jam.c jam_importfunc"),("linking","mb_jam.c jam_linkmb"),("library","jamlib JAM_AddMessage")],
 "the .jhr/.jdx/.jdt/.jlr files parsed independently")
p("C10","Scanning exports each locally written message exactly once",
 "Every message written locally in a scanned area is sent once to each system linked to the area (or routed once, for netmail), is then marked as sent and is not exported by any later scan; messages that arrived from elsewhere or were already sent are never exported. This holds for any interleaving of scans, tosses, local writing and deletions, with or without high-water marks, in both message base formats; delete-after-sending netmail is removed only once sent.",
 ["histories","inputs","configurations"],"all histories of local writes, tosses, deletes, scans",
 "The tests scan once.",
 [T+"scan.c",T+"mb_msg.c",T+"mb_jam.c",T+"handle.c"],
 [("scan","scan.c Scan/ScanArea; mb_*_export"),("high-water","mb_msg.c, mb_jam.c highwater"),("SENT flag","mb_msg.c WriteMSG, mb_jam.c")],
 "exports per message over a history, attributes on disk")
p("C11","A crash at any moment of a toss loses no received mail",
 "If the tosser is killed at any point of a toss run and simply run again, every received message is in each of its destinations: its local area, each recipient's outbound, or still unprocessed in the inbound; mail already waiting in the outbound or in message bases before the run is intact. Repeats may occur where duplicate checking is off, but no message is missing and no file is left that stops later runs (a lock or busy file of the killed run is removed with the documented unlock command or by removing the busy file).",
 ["crash_points","inputs"],"every system-call boundary of a toss run as crash point",
 "No test ever interrupts the program.",
 [T+"toss.c",T+"safedel.c",T+"outbound.c",T+"pkt.c",T+"dupe.c",T+"crashmail.c"],
 [("order of archive, delete, dupe and highwater updates","crashmail.c main, AfterScanToss; safedel.c; outbound.c ArchiveOutbound"),("leftover packets","crashmail.c BeforeScanToss, outbound.c ProcessNewpkt")],
 "state after kill at the N-th file-changing system call and a rerun")
p("C12","No mail is lost when a disk write, packer or unpacker fails",
 "If a write, close, create, rename or the external packer or unpacker fails during a toss or scan (disk full, I/O error, non-zero exit, killed packer), the program reports failure or keeps the mail for a later attempt: the inbound file or a message's unsent state is kept until its messages are safely stored, and once the fault is gone the next run delivers everything; a bundle that cannot be unpacked is set aside unchanged under a .bad name. Earlier outbound mail is never damaged.",
 ["fault_sequences","inputs"],"a fault at every file-changing operation and every packer/unpacker outcome",
 "The tests never inject a fault.",
 [T+"toss.c",T+"outbound.c",T+"pkt.c",T+"scan.c",T+"mb_msg.c",T+"mb_jam.c","src/oslib_linux/osmisc.c"],
 [("packer result","outbound.c PackFile; osmisc.c osExecute"),("write checks","osfile.c; pkt.c WritePkt functions"),("failure path","crashmail.c main")],
 "inbound, outbound and bases after an injected fault and a clean rerun")
p("C13","Outbound packets, bundles and flow files are well formed and complete",
 "Every file left in the outbound is usable by a standard mailer: packets have a correct header (both systems with zones and points, password, date) and end marker, bundles hold only complete packets for one system, names follow the outbound convention for zone, net, node, point and priority, every flow file lists each waiting file exactly once and lists no missing file. Appending to an existing outbound packet or flow file keeps what was there, a busy system's files are not touched but sent at a later run, a bundle made after an earlier one was taken by the mailer gets another name (named after the day it is made, where so configured), and packet and bundle size limits are respected.",
 ["histories","configurations","inputs"],"all sequences of toss/scan runs with any mix of nodes, priorities, zones, points, busy flags and limits",
 "The tests check that one file name exists.",
 [T+"outbound.c",T+"pkt.c",T+"toss.c"],
 [("outbound","outbound.c ArchiveOutbound/PackFile/MakeFullFilePath/MakeBaseName/AddFlow"),("packet header","pkt.c CreatePkt/FinishPacket")],
 "outbound directory tree parsed independently")
p("C14","AreaFix obeys only authorised requests and does exactly what was asked",
 "A request is acted on only if it comes from a configured system with the right password and was addressed to the robot at this system; otherwise nothing changes and the reply says so. An accepted request changes only the requesting system's links: it is linked to or unlinked from exactly the areas named or matched, only within the groups and link modes granted to it, and the reply truthfully reports every line's outcome and lists exactly the areas the system may see with their true status. All other configuration stays as it was.",
 ["inputs","configurations","histories"],"all request texts, passwords, groups and area sets",
 "The tests send HELP, LIST and one subscribe.",
 [T+"areafix.c",T+"config.c"],
 [("robot","areafix.c AreaFix"),("add/remove","areafix.c AreaFix +/-/QUERY/LIST/UNLINKED"),("persistence","config.c UpdateConfig")],
 "configuration before/after and reply netmail")
p("C15","Rewriting the configuration file preserves everything not changed",
 "When the program rewrites its configuration (AreaFix changes, auto-added areas, removed areas, changed passwords) every other statement, option, comment and line keeps its meaning and order, the new settings are the ones asked for, and reading the new file back gives the same configuration. If the new file cannot be written completely the old one remains in force.",
 ["inputs","configurations","fault_sequences"],"all accepted configuration files x all changes the program can make",
 "The tests never look at the rewritten configuration beyond one link.",
 [T+"config.c",T+"areafix.c"],
 [("rewrite","config.c UpdateConfig, WriteArea/WriteNode")],
 "the configuration file text before and after")
p("C16","Two runs on one configuration never work at the same time",
 "While one run holds a configuration, any other run on the same configuration waits and then works on the state the first one left, or gives up without changing anything; lock and unlock commands only set and remove the lock. The lock disappears when a run ends, whether it succeeded or failed, and mail processed by concurrently started runs is neither lost nor duplicated.",
 ["schedules"],"all interleavings of concurrently started runs",
 "The tests run one process at a time.",
 [T+"config.c",T+"crashmail.c"],
 [("lock file","crashmail.c/config.c LockConfig/UnlockConfig")],
 "system-call timeline of concurrent runs, final mail state")
p("C17","Filters run exactly the commands whose expression is true",
 "For every message the filter expression is evaluated strictly from left to right, with parentheses and with NOT applying to the next term or group, by the documented meaning of its fields (addresses, names, subject, text, kludges, area, message type, duplicate and nodelist status), and exactly the commands of the matching filters are executed, in order: kill, copy, twit, log, execute, store as bad, bounce and readdress. Messages that match no filter are processed as if there were none.",
 ["inputs","configurations"],"all expressions x all messages",
 "No test has a filter.",
 [T+"filter.c","src/shared/expr.c"],
 [("expression","expr.c expr_makeexpr/expr_eval"),("commands","filter.c Filter and its commands")],
 "effects of each filter command per message")
p("C18","Nodelist lookups agree with the nodelist text",
 "A compiled nodelist answers every query for a node's existence and its line, its net's host and hub exactly as the source node and point lists say, for every address including points, private and missing nodes, hubs and zones (systems listed as Down count as not listed); recompiling unchanged lists gives the same answers. Routing to hub or host and bouncing of unknown nodes follow those answers.",
 ["inputs","configurations"],"all node and point lists x all addresses",
 "The tests look up one node and one point.",
 ["src/tools/crashlist.c","src/tools/crashgetnode.c","src/cmnllib/cmnllib.c",T+"nl_cmnl.c",T+"handle.c"],
 [("index compiler","crashlist.c ProcessList"),("lookup","cmnllib.c cmnlFindNL; crashgetnode.c"),("routing hooks","nl_cmnl.c cmnlnl_GetHub/GetRegion")],
 "crashgetnode output and routing decisions against an independent parse")
p("C19","Maintenance deletes only expired messages and keeps the rest intact",
 "Maintenance removes exactly the oldest messages beyond the configured number and those older than the configured number of days in each area that asks for it, never touching other areas; all remaining messages keep their content, order, attributes and reply links, renumbering and packing keep reading and export marks pointing at the same messages, and nothing already sent becomes unsent or the reverse.",
 ["inputs","configurations","histories"],"all bases, dates, limits, switch combinations",
 "No test runs maintenance.",
 ["src/tools/crashmaint.c","src/jamlib/mbase.c"],
 [("MSG","crashmaint.c ProcessAreaMSG"),("JAM","crashmaint.c ProcessAreaJAM")],
 "bases before and after crashmaint")
p("C20","Messages written by the writer tool arrive as specified",
 "A packet created with the command line writer carries exactly the given names, subject, addresses, area, attributes, password and text file content (line ends converted, fields cut at the lengths of the format), alters no existing file, appears under its name only when it is complete, and is accepted and processed by a following toss like any other packet. Every text and combination of options is handled, writers working at the same time do not lose or mix messages, and a message that cannot be written is reported as an error.",
 ["inputs","schedules","crash_points"],"all option combinations, texts, concurrent writers and failing writes",
 "The tests write a few messages and grep for a string.",
 ["src/tools/crashwrite.c"],
 [("writer","crashwrite.c main")],"created packets")
p("C21","Statistics count exactly the mail that was processed",
 "After any history of runs the statistics file and its reports show, per area, how many messages and duplicates were received, when the area first and last had mail and the per-day counts shifted by elapsed days, and per node how much mail came from and went to it, equal to what actually happened. Areas and nodes added or removed do not disturb the figures of the others.",
 ["histories","inputs"],"all histories of runs over days",
 "The tests print one canned statistics file.",
 [T+"stats.c",T+"handle.c","src/tools/crashstats.c"],
 [("statistics file","stats.c ReadStats/WriteStats"),("report","crashstats.c")],"statistics file and crashstats output over a history")
p("C22","A rescan sends exactly the stored messages to exactly the asking system",
 "A rescan of an area sends to the requesting system, and to nobody else, each message still stored in the area, or those among the newest message numbers given as the maximum, once, marked as rescanned with its content and control lines intact, and changes neither the message base nor what later scans export. It is refused for areas or systems not entitled to it.",
 ["inputs","histories","configurations"],"all bases, maxima, systems",
 "No test rescans.",
 [T+"scan.c",T+"areafix.c",T+"mb_msg.c",T+"mb_jam.c",T+"handle.c"],
 [("rescan","handle.c HandleRescan; mb_*_rescan"),("request","areafix.c RESCAN; crashmail.c RESCAN")],"packets for the system; base bytes before/after")
p("C23","Received mail cannot make the program touch files outside its directories",
 "Whatever names, subjects, area tags or archive members arrive in the mail, the program creates, changes, moves and deletes files only inside the directories and files the configuration names, never leaves a directory through a received name, and runs no commands other than the configured ones. Attached files are moved or forwarded only if they lie in the inbound.",
 ["inputs"],"all received strings that end up in file names or commands",
 "The tests use one well-behaved packet.",
 [T+"handle.c",T+"toss.c",T+"outbound.c",T+"config.c",T+"areafix.c"],
 [("attached files","handle.c file attach handling"),("auto-added area paths","handle.c AddTossArea/MakeDirectory"),("bundle unpacking","toss.c TossBundle")],
 "system-call log of every path created, changed or removed")
p("C24","Unknown conferences are created or refused exactly as configured",
 "Echomail for an unknown area is put in BAD and the area is registered once from the best matching default, confirmed and working at once only for systems allowed to create areas, otherwise unconfirmed until the operator confirms it; a received tag never alters or captures an existing area. Reserved tags (BAD, DEFAULT and DEFAULT_*) are refused. The new entry keeps the tag, the feeding system as link, the group and address of the default and a storage place made from the default's path that no other area uses, and survives in the configuration for the following runs.",
 ["inputs","histories","configurations"],"all tags, default areas, senders",
 "No test auto-adds an area.",
 [T+"handle.c",T+"config.c"],
 [("auto-add","handle.c AddTossArea/GetDescription"),("defaults","handle.c DEFAULT areas"),("persistence","config.c UpdateConfig")],
 "configuration and message bases after toss")
p("C25","The command line tools never corrupt memory on any input file",
 "The nodelist compiler and lookup, list exporters, maintenance, statistics and writer tools never access memory out of bounds, act on memory they have not set, hit undefined behaviour, crash or hang on any configuration, node list, statistics file, message base or arguments they are given. The same holds for the tosser itself on any configuration file and any arguments. Damaged input gives an error or is skipped.",
 ["inputs","configurations"],"all input files and arguments",
 "The tests run the tools uninstrumented on one good input each.",
 ["src/tools/crashlist.c","src/tools/crashgetnode.c","src/tools/crashlistout.c","src/tools/crashexport.c","src/tools/crashmaint.c","src/tools/crashstats.c","src/tools/crashwrite.c","src/shared/jbstrcpy.c"],
 [("word splitting","jbstrcpy.c"),("each tool","src/tools")],"ASan/UBSan reports, exit status")
p("C26","Bounces, receipts, audits and loops are answered once and truthfully",
 "Netmail that must be bounced (unknown destination, point or attachment not allowed) is returned exactly once to its sender with the reason and the original text or header and is not forwarded, while mail that need not be bounced never is; requested receipts and audits are answered once and automatic replies never cause further automatic replies. Looping netmail is logged or stored in BAD as configured and not silently dropped.",
 ["inputs","configurations"],"all netmail, attributes, patterns and modes",
 "The tests contain no bounce, receipt or loop.",
 [T+"handle.c",T+"misc.c"],
 [("bounce","handle.c Bounce"),("receipts","handle.c AnswerReceipt/AnswerAudit"),("loops","handle.c IsLoopMail")],
 "generated netmail in outbound and bases")
p("C27","Area exports reproduce the configuration and the outbound lister the outbound",
 "The area list exporter writes each area of the chosen groups and kinds exactly once, with its own tag, base type, path, links and description in the chosen format, and nothing else; the outbound lister shows exactly the waiting packets, flow files and requests of the systems matching the pattern, sorted by address, each with its own type, address, date, size, number of files and (verbose) contents, and totals that add up to what is shown.",
 ["inputs","configurations"],"all configurations, outbounds, patterns, formats",
 "No test runs these tools.",
 ["src/tools/crashexport.c","src/tools/crashlistout.c"],
 [("area export","crashexport.c"),("outbound listing","crashlistout.c")],"tool output against an independent parse")
p("C28","A configuration with an error is refused as a whole, a correct one accepted",
 "When the configuration file has an error (an unknown or incomplete line, an invalid address, pattern, group or value, a setting that belongs to no area, system or filter above it, an undeclared address, system, packer or area, two areas sharing a path, a filter that does not parse, a pattern that needs a nodelist there is none of), every command of the tosser ends with a failure exit status and a message naming the configuration error (with its line number where it is an error of one line), and leaves every file as it was and no lock behind; with the error corrected the same command is carried out. No correct configuration is refused.",
 ["inputs","configurations"],"all configurations and all places an error can stand in",
 "Tests use one correct configuration; what is at stake is that no mail is handled under half a configuration.",
 ["src/crashmail/config.c","src/crashmail/crashmail.c"],
 [("reading","config.c ReadConfig"),("consistency","config.c CheckConfig"),("refusal","crashmail.c main")],"exit status, message and a comparison of the whole directory tree")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
