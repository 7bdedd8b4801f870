#!/usr/bin/env python3
# Writes harness/standins.json: functions of a property's chain that are not under contract yet and are run on generated inputs instead.
import json, os
B = "generated inputs, seeded, for 15 s"
S = {
 'C01': ['interleavings of the steps of concurrent workers (Reader.Read and writeIterator.*)', 'Reader.Read', 'Processor.iterateForWriters'],
 'C03': ['urlExtractor.extract', 'Reader.Read'],
 'C16': ['Reader.Read'],
 'C04': ['Processor.iterateForWriters', 'writeIterator.lineStarted, lineFinished, checkCompleted'],
 'C05': ['Processor.setupWalker closures', 'Processor.scanKey'],
 'C06': ['Processor.scanKey', 'baseWriter.initFilteredKeys', 'scan closures of Processor.scanAvailableKeys'],
 'C07': ['Processor.scanKey', 'Processor.prepareScannedKeys', 'zero flags in Processor.flKeysInit'],
 'C08': ['Processor.iterateForWriters', 'renaming by pattern or to short names in Processor.prepareKey'],
 'C09': ['Processor.prepareScannedKeys'],
 'C11': ['Processor.setupWriters'],
 'C12': ['Processor.setupWriters'],
 'C13': ['Processor.setupWriters'],
 'C10': ['Processor.prepareScannedKeys'],
 'C15': ['Processor.scanKey'],
 'C17': ['Flags.Parse', 'Flags.Register'],
 'C19': ['Processor.prepareScannedKeys', 'KeyHierarchy.Hierarchy', 'navigation in jsonSchema.AddKey'],
 'C20': ['cmd/csvequals main'],
}
json.dump({k: {"functions": v, "bound": B} for k, v in S.items()}, open(os.path.join(os.path.dirname(__file__), '../harness/standins.json'), 'w'), indent=1)
