PRE = open('/verif/tools/seeds/ratchet_pre.txt').read()
R = 'jester_double_ratchet/src/lib.rs'
D = ['ratchet', 'encryption', 'maths']
def s(id, old, new, needs, breaks, body, edits=None):
    d = dict(id=id, prop=id[:3], file=R, old=old, new=new, needs=needs, breaks=breaks, main=PRE + 'fn main() {\n    let mut w = World::new();\n' + body + '}\n', deps=D, hooks=True)
    if edits: d['edits'] = [(R, a, b) for a, b in edits]
    return d
SEEDS = [
 s('R01-previous-length', 'self.previous_sending_chain_length = self.sending_chain_length;\n            self.sending_chain_length = 0;', 'self.sending_chain_length = 0;\n            self.previous_sending_chain_length = self.sending_chain_length;',
   'a conversation of at least three turns', 'the header of the next chain claims that the previous chain was empty, and the peer rejects it',
   '''    for turn in 0..4 { let m = w.send(turn % 2); need("in-order message", w.deliver(1 - turn % 2, &m) == 0); }\n'''),
 s('R01-skip-many', 'return Ok((message.message_number - protocol.receiving_chain_length, 0));', 'return Ok(((message.message_number - protocol.receiving_chain_length) as u8 as usize, 0));',
   'a gap of 256 or more messages in one chain', 'the receiving chain is advanced too little and the message decrypts with a wrong key',
   '''    let mut last = w.send(0); need("first", w.deliver(1, &last) == 0);
    for _ in 0..30 { last = w.send(0); } need("gap of 29", w.deliver(1, &last) == 0);
    for _ in 0..300 { last = w.send(0); } need("gap of 299", w.deliver(1, &last) == 0);\n'''),
 s('R01-first-wrong-chain', 'generated_dh_private_key,\n            );\n            self.receiving_chain_length = 0;', 'generated_dh_private_key,\n            );\n            self.receiving_chain_length = self.receiving_chain_length.saturating_sub(self.receiving_chain_length.max(3));',
   'nothing: equivalent (control, not kept)', '', ''),
 s('R02-old-chain-keys', '''            Ok((
                message.previous_chain_length - protocol.receiving_chain_length,
                message.message_number,
            ))''', '''            Ok((
                (message.previous_chain_length - protocol.receiving_chain_length).min(message.message_number.max(1)),
                message.message_number,
            ))''', 'at least two messages of a chain still missing when the next chain starts with its first message', 'the keys of all but one of them are not kept, so they never decrypt',
   '''    let a = w.send(0); let b = w.send(0); let c = w.send(0);
    need("first", w.deliver(1, &a) == 0);
    let x = w.send(1); need("answer", w.deliver(0, &x) == 0);
    let d = w.send(0); need("next chain", w.deliver(1, &d) == 0);
    need("late b", w.deliver(1, &b) == 1); need("late c", w.deliver(1, &c) == 1);\n'''),
 s('R02-key-chain', '''                self.missed_messages.insert(
                    (message.public_key.clone(), self.receiving_chain_length),
                    message_key,
                );''', '''                self.missed_messages.insert(
                    (message.public_key.clone(), next_chain_missed_messages - 1),
                    message_key,
                );''', 'two or more messages skipped at the start of a new chain', 'their keys are stored in reverse order',
   '''    let a = w.send(0); need("a", w.deliver(1, &a) == 0);
    let x = w.send(1); need("x", w.deliver(0, &x) == 0);
    let b = w.send(0); let c = w.send(0); let d = w.send(0);
    need("d", w.deliver(1, &d) == 0); need("late b", w.deliver(1, &b) == 1); need("late c", w.deliver(1, &c) == 1);\n'''),
 s('R03-replay-late', 'let message_key = self.missed_messages.remove(&dictionary_key).unwrap();', 'let message_key = self.missed_messages.get(&dictionary_key).unwrap();',
   'a late message delivered twice', 'it decrypts twice',
   '''    let a = w.send(0); let b = w.send(0);
    need("b", w.deliver(1, &b) == 0); need("late a", w.deliver(1, &a) == 1); need("replayed a", w.deliver(1, &a) == 2);\n'''),
 s('R03-cleanup', 'return Err(UnknownMessageHeader {});', 'self.missed_messages.retain(|(k, _), _| *k == dictionary_key.0);\n                        return Err(UnknownMessageHeader {});',
   'a replayed message rejected while a message of another chain is still missing', 'the rejection drops the keys of other chains',
   '''    let a = w.send(0); let b = w.send(0);
    need("b", w.deliver(1, &b) == 0);
    let x = w.send(1); need("x", w.deliver(0, &x) == 0);
    let c = w.send(0); need("c", w.deliver(1, &c) == 0); need("replayed c", w.deliver(1, &c) == 2);
    need("late a", w.deliver(1, &a) == 1);\n'''),
 s('R03-lying-header', 'if message.previous_chain_length >= protocol.receiving_chain_length {', 'if message.previous_chain_length >= protocol.previous_receiving_chain_length {',
   'a header that claims fewer messages in the previous chain than were received', 'it is not rejected (subtraction overflow or accepted)',
   '''    for _ in 0..3 { let a = w.send(0); need("a", w.deliver(1, &a) == 0); }
    let x = w.send(1); need("x", w.deliver(0, &x) == 0);
    let mut c = w.send(0); c.2 = 1; need("lying header", w.deliver(1, &c) == 3);\n'''),
 s('R04-max-previous', 'self.previous_sending_chain_length = self.sending_chain_length;', 'self.previous_sending_chain_length = self.previous_sending_chain_length.max(self.sending_chain_length);',
   'a sending chain that is shorter than an earlier one', 'the header does not carry the length of the previous chain but of the longest one',
   '''    let mut len = [2usize, 1]; len[1] = 1;
    let mut prev = [0usize, 1];
    for (turn, n) in [3usize, 2, 1, 1, 2, 2].iter().enumerate() {
        let who = turn % 2;
        for _ in 0..*n { let m = w.send(who); need("previous chain length", m.2 == prev[who]); need("deliver", w.deliver(1 - who, &m) == 0); }
        prev[who] = *n;
    }\n'''),
 s('R04-restart', 'self.sending_chain_length = 0;\n            self.receiving_chain_length', 'if self.sending_chain_length != 4 { self.sending_chain_length = 0; }\n            self.receiving_chain_length',
   'a direction change after exactly four sent messages', 'the numbers of the next chain start at four',
   '''    for n in [3usize, 4, 2] {
        for i in 0..n { let m = w.send(0); need("message number", m.1 == i); need("deliver", w.deliver(1, &m) == 0); }
        let x = w.send(1); need("answer", w.deliver(0, &x) == 0);
    }\n'''),
 s('R04-stale-key', 'self.diffie_hellman_public_key = new_dh_public_key;', 'if self.sending_chain_length > 0 { self.diffie_hellman_public_key = new_dh_public_key; }',
   'two direction changes of the peer without a message from this side between them cannot happen; a side that never sent before it ratchets', 'the header keeps the old public key', ''),
]
SEEDS = [x for x in SEEDS if not x['main'].endswith("World::new();\n}\n")]
