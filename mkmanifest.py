"""Writes MANIFEST.json from properties.jsonl."""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NOTE={
'C01':'Sampled logs, delivery and write schedules; the input bytes themselves are the oracle. Non-canonical encodings (odd text spacing in keys, booleans other than 0/1, trailing bytes) are outside "well-formed".',
'C02':'Sampled logs and delivery schedules against an independent reference model that states what was logged.',
'C03':'Every run cuts one or more sampled logs at sampled and boundary byte positions; oracle: the model\'s complete prefix.',
'C04':'Sampled sequences of read failures, biased to header and content boundaries; oracle: exactly-once against the model.',
'C05':'Sampled writers (short, zero, failing, interrupted, full) over every encodable part and oversize messages; oracle: exact expected bytes.',
'C06':'Sampled damage to message contents; oracle: the model of the undamaged messages.',
'C07':'Sampled hostile and damaged byte streams under an allocation limit, CPU limit and 2 MiB stack; aborts, hangs, panics and memory use are observed by the parent process.',
'C08':'Counting allocator over long simulated logs (up to a few hundred thousand messages); linear-growth test, per-message bound, full release.',
'C09':'Simulated live connection whose bytes arrive at sampled instants; oracle: the message ends, by bytes available.',
'C10':'Sampled offsets around message boundaries, flags, appended garbage and look-alike messages, one run past 4 GiB of simulated input; oracle: the model\'s prefix.',
'C11':'Sampled histories of subscriptions, removals and redirections; oracle: an executable model of the subscription table.',
'C12':'Sampled logs read under several option sets; oracle: the model\'s filtered view.',
'C13':'Five derived message enums over eleven struct types, through both ways of opening a stream, over sampled logs that match, half match or contradict them; oracle: the model\'s typed view.',
'C14':'Sampled interleavings of several parsers, streams and encoders under a seeded scheduler that switches at every simulated read, write and queue operation; in a part of the runs also between two machine instructions inside library calls (single-stepping: by count, by address, and at locked instructions and instructions that touch static variables), at allocations, lock waits, yields and sleeps; compared with the same work done alone and in a process of its own. Memory orders weaker than x86 offers are not explored.',
'C15':'Sampled interleavings of producer and consumer threads in the thread_safe build, including interruptions between two machine instructions inside library calls. Memory orders weaker than x86 offers are not explored.',
'C16':'Standard streams captured, full or closed, over sampled well-formed and hostile logs; files, directories, sockets, processes and pipes that library code asks for are refused and recorded; environment variables, the clock and sleeping are simulated. System calls made without libc are not seen.',
'C17':'Sampled crash points (including during recovery) of a re-emitting program on a simulated disk whose unsynced tail may be lost; oracle: the original bytes.',
'C18':'Sampled operation sequences of the low-level byte source over sampled delivery schedules; oracle: the bytes.',
'C19':'Sampled finite inputs with read failures and bytes appearing after the end; bounded number of answers.',
'C23':'Sampled damage to formats and subscriptions; oracle: the model of the undamaged log, with the messages that depend on the damage left open. Damage to the first subscription and to what it is made of is left out, as it moves the beginning of the data section.',
'C24':'Sampled hand-overs of parsers and derived streams between two to four simulated threads in the thread_safe build, interruptions between machine instructions included; compared with one thread and with the model.',
'C25':'Sampled logs, faults and orders of keeping, copying, looking and dropping; values, printed form and encoding of kept messages compared with those at the time of yielding.',
}
checks=[]
for p in props:
    i=p['id']
    if i not in NOTE: continue
    checks.append(dict(property=i,quick_cmd=f'./check.sh {i} quick',thorough_cmd=f'./check.sh {i} thorough',
        technique='deterministic simulation with seeded fault injection, checked against a reference model',
        level='exploration',level_note=NOTE[i]))
na=[
 dict(property='C20',reason='What a program fails to compile is decided by the compiler before anything runs: no schedule, time, I/O or fault takes part, so there is nothing to simulate.'),
 dict(property='C21',reason='Text rendering is a pure function of one value: no scheduling, time, I/O, randomness or fault can influence it, so simulation would be plain input sampling.'),
 dict(property='C22',reason='The in-memory buffer is a pure, single-owner value type without I/O or concurrency; no fault or schedule can reach it. It is exercised as real code below every other check.'),
]
json.dump(dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na,
  notes='No hooks in /repo: the readers and writers the library is generic over, the global allocator, the getrandom, clock_gettime, nanosleep, sched_yield, futex (syscall), getenv, open/mkdir/unlink/rename/socket/pipe/fork/exec symbols, the standard file descriptors and the processor\'s trap flag are the seams; all are inside the simulator process. Findings that were repaired: known_findings.txt.'),
  open('/verif/MANIFEST.json','w'),indent=1)
