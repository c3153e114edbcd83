"""C22: only the holder of the log's lock sequences (LoadLog, Start, MainMain)."""
from c16 import *
from c15 import only
from stagezero import endpoint_unit

LOCK = ('lock.acquired', 'lock.of-the-configured-consul', 'lock.key', 'lock.session-of-its-own', 'lock.before-the-state-is-read', 'lock.kept',
        'lock.handed-to-the-log', 'lock.loss-ends-the-process')
UNITS = [('LoadLog', only(loadlog, LOCK)),
         ('Start', only(endpoint_unit, ('lock-released-when-a-stage-stops', 'one-sequencer-of-each-stage'))),
         ('MainMain', submit_main)]
UNDER = [CS + 'LoadLog', '(*%sLog).Start' % CS, CS + 'MainMain']
ASSUMPTIONS = ["consul's Lock.Lock returns a channel only while it holds the key for a session of its own, closes it when the lock is lost, and returns neither channel nor error only when the attempt could be cut short; Unlock releases the lock, which closes the channel",
               'a goroutine that is ready to run runs: the process ends some time after the channel closes, not at the same instant',
               'log.Fatal, os.Exit and an unrecovered panic end the process']
REPLAY = [{'pkg': 'internal/ctsubmit', 'file': 'c22_test.go', 'test': 'TestVerifC22', 'with': ['vh_test.go', 'vhs3_test.go', 'vhlog_test.go', 'c16_test.go']}]
