#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
T={
'C01':('property-based testing: round-trip over generated letter sequences and trees',''),
'C02':('property-based testing: byte round-trip over generated compressed data',''),
'C03':('property-based testing: differential against an independent reader and writer of the layout',''),
'C04':('property-based testing: validity predicate (complete prefix code) over generated weights',''),
'C05':('property-based testing: differential against an independent optimal-cost oracle',''),
'C06':('property-based testing: round-trip and differential over generated tree shapes',''),
'C07':('structured fuzzing of bit sequences against a reference parser',''),
'C08':('structured fuzzing of byte sequences against a reference decoder',''),
'C09':('property-based testing: reference model of the first uncovered letter',''),
'C10':('property-based testing: differential counting against a map',''),
'C11':('stateful model-based testing: generated histories against a map',''),
'C12':('property-based testing: round-trip; all values of the 8- and 16-bit types, sampled ones of the wider',''),
'C13':('property-based testing of the built binary: file round-trip over block sizes',''),
'C14':('property-based testing of the built binary: differential against an independent reader and writer',''),
'C15':('structured fuzzing of the built binary against a reference decoder',''),
'C16':('property-based testing with injected faults: every file operation of generated runs failed, shortened, interrupted','Faults are delivered at the C library interface by an interposing library; long runs are disturbed at first, last and spread operations (36 quick, 150 thorough). '),
'C17':('property-based testing with injected faults and kills at every file operation; generated aliases and refusals','Kill is SIGKILL of the process; power loss is not modelled. '),
'C18':('stateful model-based testing: generated invocation histories against a model of the directory tree',''),
'C19':('grammar-based fuzzing of invocations against a reference grammar, with whole-tree comparison',''),
'C20':('metamorphic testing: memory and read sizes of generated small and large files compared','Measured at the C library interface and from the peak resident set, with stated slack. '),
'C21':('stateful model-based testing: generated histories against a model branch',''),
'C22':('stateful model-based testing: generated histories of edits against a model tree',''),
'C23':('stateful model-based testing: generated interleavings of calls, each against its own model',''),
'C24':('structured fuzzing with hostile input, allocated bytes against a bound','The bound, 1024 bytes per byte of input + 256 KiB, is well above the present need (256). '),
'C25':('metamorphic testing of the built binary: generated circumstances and simultaneous runs compared with a plain run','The operating system schedules simultaneous runs; generated delays at file operations only steer it. '),
'C26':('metamorphic testing: generated inputs of one size and of 64 times that size, work compared','Processor time is a measurement: six times what is in proportion plus half a second (for the tool: eight times, a second, and 5 ms a block) is tolerated, so only growth well beyond linear is seen. '),
'C27':('property-based testing of the built binary: output compared with what the run had to say, under generated delays','The time told is compared with delays injected during the work and with the length of the run. '),
'C28':('property-based testing: documented panics as an exact predicate over generated parts',''),
'C29':('metamorphic testing: generated histories of calls repeated, allocated bytes compared from one repetition to the next; peaks against a bound','Memory is seen at the global allocator; what is made once and kept is not counted. '),
}
checks=[]
for i,(t,n) in T.items():
    checks.append(dict(property=i,quick_cmd=f'bash check.sh {i}',thorough_cmd=f'VERIF_TIER=thorough bash check.sh {i}',
      evidence_file=f'evidence/{i}.json',technique=t,level='fault_enumeration' if i in('C16','C17') else 'exploration',
      level_note=n+'Seeded search over generated cases with shrinking: no absence proof. Trusts the reference model in harness/src/refimpl.rs and the compiler; the domain limits are in DESIGN.md.'))
m=dict(version=1,setup_cmd='bash setup.sh',checks=checks,not_applicable=[],
  notes='No hooks: everything is observed through the public API, the built binary and the C library interface. Known findings and repaired defects: KNOWN_FINDINGS.txt.')
with open(os.path.join(os.path.dirname(__file__),'..','MANIFEST.json'),'w') as f: json.dump(m,f,indent=1); f.write('\n')
