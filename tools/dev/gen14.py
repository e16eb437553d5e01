import re,sys
OUT=[]
def E(name,*chg,kind='R'):
    files={}
    for f,a,b in chg:
        p='/repo/src/'+f
        s=files.get(f) or open(p).read()
        if a.startswith('re:'):
            s2,n=re.subn(a[3:],b,s)
        else:
            n=s.count(a); s2=s.replace(a,b)
        assert n>=1,(name,f,a)
        files[f]=s2
    for f,s in files.items():
        OUT.append((name,kind,f,open('/repo/src/'+f).read(),s))
def dump(path):
    with open(path,'w') as o:
        last=None
        for n,k,f,a,b in OUT:
            if n!=last: o.write('### %s | %s\n'%(n,k)); last=n
            # minimal differing region, line based
            A=a.split('\n');B=b.split('\n')
            i=0
            while A[i]==B[i]: i+=1
            j=1
            while A[-j]==B[-j] and len(A)-j>i and len(B)-j>i: j+=1
            lo=max(0,i-3); 
            x='\n'.join(A[lo:len(A)-j+4]); y='\n'.join(B[lo:len(B)-j+4])
            assert a.count(x)==1,(n,f,a.count(x))
            o.write('@@ src/%s\n<<<<\n%s\n====\n%s\n>>>>\n'%(f,x,y))
E('g-cts-private-order',
 ('common_token_stream.rs','fn next_token_on_channel(&mut self, mut i: isize, channel: isize, direction: isize)','fn next_token_on_channel(&mut self, direction: isize, mut i: isize, channel: isize)'),
 ('common_token_stream.rs','self.next_token_on_channel(self.base.p, self.channel, 1)','self.next_token_on_channel(1, self.base.p, self.channel)'),
 ('common_token_stream.rs','self.next_token_on_channel(index, self.channel, 1)','self.next_token_on_channel(1, index, self.channel)'),
 ('common_token_stream.rs','self.next_token_on_channel(0, self.channel, 1)','self.next_token_on_channel(1, 0, self.channel)'),
 ('common_token_stream.rs','self.next_token_on_channel(i + 1, self.channel, 1)','self.next_token_on_channel(1, i + 1, self.channel)'),
 ('common_token_stream.rs','self.next_token_on_channel(i - 1, self.channel, -1)','self.next_token_on_channel(-1, i - 1, self.channel)'))
E('g-cts-drop-channel-param',
 ('common_token_stream.rs','fn next_token_on_channel(&mut self, mut i: isize, channel: isize, direction: isize) -> isize {','fn next_token_on_channel(&mut self, mut i: isize, direction: isize) -> isize {\n        let channel = self.channel;'),
 ('common_token_stream.rs','re:self\.next_token_on_channel\((.*?), self\.channel, ',r'self.next_token_on_channel(\1, '))
E('g-cts-rename-fn',('common_token_stream.rs','re:\\bnext_token_on_channel\\b','find_on_channel'),('common_token_stream.rs','re:\\blt_inner\\b','look_forward'))
E('g-cts-base-rename',('common_token_stream.rs','re:\\bself\\.base\\b','self.buffer'),('common_token_stream.rs','    base: UnbufferedTokenStream<','    buffer: UnbufferedTokenStream<'),('common_token_stream.rs','            base: UnbufferedTokenStream::','            buffer: UnbufferedTokenStream::'))
E('g-lx-existing-free',
 ('lexer_atn_simulator.rs','''    #[inline(always)]
    fn get_existing_target_state(dfa: &DFA, _s: DFAStateRef, t: isize) -> Option<DFAStateRef> {''','''    #[inline(always)]
    fn get_existing_target_state(&self, dfa: &DFA, _s: DFAStateRef, t: isize) -> Option<DFAStateRef> {'''),
 ('lexer_atn_simulator.rs','Self::get_existing_target_state(dfa','self.get_existing_target_state(dfa'))
E('g-lx-existing-sentinel',
 ('lexer_atn_simulator.rs','''_s: DFAStateRef, t: isize) -> Option<DFAStateRef> {''','''_s: DFAStateRef, t: isize) -> DFAStateRef {'''),
 ('lexer_atn_simulator.rs','''            .and_then(|x| match x {
                0 => None,
                x => Some(x),
            })
            .copied()''','''            .copied()
            .unwrap_or(0)'''),
 ('lexer_atn_simulator.rs','''            let target =
                target.unwrap_or_else(|| self.compute_target_state(&mut dfa, s, symbol, lexer));''','''            let target = if target == 0 {
                self.compute_target_state(&mut dfa, s, symbol, lexer)
            } else {
                target
            };'''))
E('g-lx-reach-return',
 ('lexer_atn_simulator.rs','''        let mut reach = ATNConfigSet::new_ordered();
        self.get_reachable_config_set(
            &dfa.as_ref().unwrap().states[s].configs,
            &mut reach,
            _t,
            lexer,
        );''','''        let mut reach =
            self.get_reachable_config_set(&dfa.as_ref().unwrap().states[s].configs, _t, lexer);'''),
 ('lexer_atn_simulator.rs','''        _closure: &ATNConfigSet,
        _reach: &mut ATNConfigSet,
        _t: isize,
        lexer: &mut impl Lexer<'input>,
    ) {
        let mut skip_alt = 0;''','''        _closure: &ATNConfigSet,
        _t: isize,
        lexer: &mut impl Lexer<'input>,
    ) -> ATNConfigSet {
        let mut reach = ATNConfigSet::new_ordered();
        let mut skip_alt = 0;'''),
 ('lexer_atn_simulator.rs','''                        new,
                        _reach,
                        current_alt''','''                        new,
                        &mut reach,
                        current_alt'''),
 ('lexer_atn_simulator.rs','''                        skip_alt = config.get_alt();
                        break;
                    }
                }
            }
        }
    }''','''                        skip_alt = config.get_alt();
                        break;
                    }
                }
            }
        }
        reach
    }'''))
E('g-lx-pos-rename',('lexer_atn_simulator.rs','re:\\bprev_accept\\b','accepted'))
E('g-lx-simstate-option',
 ('lexer_atn_simulator.rs','''        input.seek(self.prev_accept.index);
        self.current_pos.line.set(self.prev_accept.line);
        self.current_pos
            .char_position_in_line
            .set(self.prev_accept.column);''','''        let SimState {
            index,
            line,
            column,
            ..
        } = self.prev_accept;
        self.current_pos.line.set(line);
        self.current_pos.char_position_in_line.set(column);
        input.seek(index);'''))
E('g-lx-addstate-order',
 ('lexer_atn_simulator.rs','re:self\\.add_dfaedge\\(&mut dfa_mut\\.states\\[s\\], _t, ERROR_DFA_STATE_REF\\)','self.add_dfaedge(_t, &mut dfa_mut.states[s], ERROR_DFA_STATE_REF)'),
 ('lexer_atn_simulator.rs','self.add_dfaedge(from, _t, to)','self.add_dfaedge(_t, from, to)'),
 ('lexer_atn_simulator.rs','re:fn add_dfaedge\\(&self, (\\w+): &mut DFAState, (\\w+): isize',r'fn add_dfaedge(&self, \2: isize, \1: &mut DFAState'))
dump('/tmp/ed/r14.txt')
