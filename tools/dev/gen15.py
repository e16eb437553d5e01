import sys; sys.path.insert(0,'/tmp')
from genlib import *
AD='atn_deserializer.rs'; LX='lexer_atn_simulator.rs'; LE='lexer.rs'; ES='error_strategy.rs'; TS='token_stream.rs'
E('h-ad-sets-fn-generic',
 (AD,'''        data: &mut T,
        read_unicode: fn(&mut T) -> isize,
    ) -> Vec<IntervalSet> {''','''        data: &mut T,
        read_unicode: impl Fn(&mut T) -> isize,
    ) -> Vec<IntervalSet> {'''))
E('h-ad-sets-inplace',
 (AD,'''        let mut sets = self.read_sets(&mut atn, &mut data, |data| {
            data.next().unwrap() as u16 as isize
        });

        sets.extend(self.read_sets(&mut atn, &mut data, |data| {
            (data.next().unwrap() & 0xFFFF) | data.next().unwrap() << 16
        }));
''','''        let mut sets = Vec::new();
        self.read_sets(&mut sets, &mut data, |data| {
            data.next().unwrap() as u16 as isize
        });
        self.read_sets(&mut sets, &mut data, |data| {
            (data.next().unwrap() & 0xFFFF) | data.next().unwrap() << 16
        });
'''),
 (AD,'''        _atn: &mut ATN,
        data: &mut T,
        read_unicode: fn(&mut T) -> isize,
    ) -> Vec<IntervalSet> {
        let nsets = data.next().unwrap();
        let mut sets = Vec::new();
''','''        sets: &mut Vec<IntervalSet>,
        data: &mut T,
        read_unicode: fn(&mut T) -> isize,
    ) {
        let nsets = data.next().unwrap();
'''),
 (AD,'''            sets.push(set);
        }

        sets
    }''','''            sets.push(set);
        }
    }'''))
E('h-ad-drop-atn-param',
 (AD,'self.read_sets(&mut atn, &mut data, |data|','self.read_sets(&mut data, |data|'),
 (AD,'        _atn: &mut ATN,\n        data: &mut T,','        data: &mut T,'))
E('h-ad-next-helper',
 (AD,'            let action_type = _data.next().unwrap();\n','            let action_type = Self::next_value(_data);\n'),
 (AD,'            let mut data1 = _data.next().unwrap();\n            if data1 == 0xFFFF {\n                data1 = -1;\n            }\n            let mut data2 = _data.next().unwrap();\n            if data2 == 0xFFFF {\n                data2 = -1;\n            }\n','            let data1 = Self::next_or_invalid(_data);\n            let data2 = Self::next_or_invalid(_data);\n'),
 (AD,'    fn read_lexer_actions(','''    fn next_value(data: &mut dyn Iterator<Item = isize>) -> isize {
        data.next().unwrap()
    }

    fn next_or_invalid(data: &mut dyn Iterator<Item = isize>) -> isize {
        let v = Self::next_value(data);
        if v == 0xFFFF {
            -1
        } else {
            v
        }
    }

    fn read_lexer_actions('''))
E('h-ad-ttype-cols',
 (AD,'''            let src = data.next().unwrap() as usize;
            let trg = data.next().unwrap() as usize;
            let ttype = data.next().unwrap();
            let arg1 = data.next().unwrap();
            let arg2 = data.next().unwrap();
            let arg3 = data.next().unwrap();
''','''            let mut next = || data.next().unwrap();
            let (src, trg) = (next() as usize, next() as usize);
            let ttype = next();
            let (arg1, arg2, arg3) = (next(), next(), next());
'''))
E('h-lx-accept-flag',
 (LX,'''    pub(crate) fn reset(&mut self) {
        // self.index = -1;
        // self.line = 0;
        // self.column = -1;
        self.dfa_state = None;''','''    pub(crate) fn reset(&mut self) {
        // only the state decides whether something was accepted
        let _ = self.dfa_state.take();'''))
E('h-lx-exec-noopt',
 (LX,'''        dfa: &mut Option<RwLockUpgradableReadGuard<'_, DFA>>,
        s: DFAStateRef,
        _t: isize,
        lexer: &mut impl Lexer<'input>,
    ) -> DFAStateRef {''','''        lexer: &mut impl Lexer<'input>,
        dfa: &mut Option<RwLockUpgradableReadGuard<'_, DFA>>,
        s: DFAStateRef,
        _t: isize,
    ) -> DFAStateRef {'''),
 (LX,'self.compute_target_state(&mut dfa, s, symbol, lexer)','self.compute_target_state(lexer, &mut dfa, s, symbol)'))
E('h-lx-start-const',
 (LX,'''        if t < MIN_DFA_EDGE || t > MAX_DFA_EDGE {
            return;
        }

        if _from.edges.len() < (MAX_DFA_EDGE - MIN_DFA_EDGE + 1) as usize {
            _from
                .edges
                .resize((MAX_DFA_EDGE - MIN_DFA_EDGE + 1) as usize, 0);
        }
''','''        if !Self::cached(t) {
            return;
        }

        if _from.edges.len() < Self::EDGES {
            _from.edges.resize(Self::EDGES, 0);
        }
'''),
 (LX,'    fn add_dfaedge(&self','''    const EDGES: usize = (MAX_DFA_EDGE - MIN_DFA_EDGE + 1) as usize;

    fn cached(t: isize) -> bool {
        t >= MIN_DFA_EDGE && t <= MAX_DFA_EDGE
    }

    fn add_dfaedge(&self'''))
E('h-lx-existing-hasidx',
 (LX,'''        dfa.states[_s]
            .edges
            .get((t - MIN_DFA_EDGE) as usize)
            .and_then(|x| match x {
                0 => None,
                x => Some(x),
            })
            .copied()''','''        let edges = &dfa.states[_s].edges;
        let i = (t - MIN_DFA_EDGE) as usize;
        if i < edges.len() && edges[i] != 0 {
            Some(edges[i])
        } else {
            None
        }'''))
E('h-le-notify-method',
 (LE,'notify_listeners(&mut self.error_listeners.borrow_mut(), &err, self);','self.notify_listeners(&err);'),
 (LE,'''fn notify_listeners<'input, T, Input, TF>(
    liseners: &mut Vec<Box<dyn ErrorListener<'input, BaseLexer<'input, T, Input, TF>>>>,
    e: &ANTLRError,
    lexer: &BaseLexer<'input, T, Input, TF>,
) where
    T: LexerRecog<'input, BaseLexer<'input, T, Input, TF>> + 'static,
    Input: CharStream<TF::From>,
    TF: TokenFactory<'input>,
{
    let inner = lexer
        .input''','''fn unused_marker() {}

impl<'input, T, Input, TF> BaseLexer<'input, T, Input, TF>
where
    T: LexerRecog<'input, Self> + 'static,
    Input: CharStream<TF::From>,
    TF: TokenFactory<'input>,
{
#[cold]
fn notify_listeners(&self, e: &ANTLRError) {
    unused_marker();
    let lexer = self;
    let mut liseners = self.error_listeners.borrow_mut();
    let inner = lexer
        .input'''),
 (LE,'''            &text,
            Some(e),
        )
    }
}''','''            &text,
            Some(e),
        )
    }
}
}'''))
E('h-le-text-method',
 (LE,'''    let inner = lexer
        .input
        .as_ref()
        .unwrap()
        .get_text(lexer.token_start_char_index, lexer.get_char_index());
    let text = format!(
        "token recognition error at: '{}'",
        TF::get_data(inner).to_display()
    );
    for''','''    let text = error_text(lexer);
    for'''),
 (LE,'''#[cold]
#[inline(never)]
fn notify''','''fn error_text<'input, T, Input, TF>(lexer: &BaseLexer<'input, T, Input, TF>) -> String
where
    T: LexerRecog<'input, BaseLexer<'input, T, Input, TF>> + 'static,
    Input: CharStream<TF::From>,
    TF: TokenFactory<'input>,
{
    let input = lexer.input.as_ref().unwrap();
    let inner = input.get_text(lexer.token_start_char_index, lexer.get_char_index());
    let shown = TF::get_data(inner).to_display();
    format!("token recognition error at: '{}'", shown)
}

#[cold]
#[inline(never)]
fn notify'''))
E('h-le-start-method',
 (LE,'''            self.token = None;
            self.channel = LEXER_DEFAULT_TOKEN_CHANNEL;
            self.token_start_column = self
                .interpreter
                .as_ref()
                .unwrap()
                .get_char_position_in_line();
            self.token_start_line = self.interpreter.as_ref().unwrap().get_line();
            self.text = None;
            let index = self.input().index();
            self.token_start_char_index = index;
''','''            self.begin_token();
'''),
 (LE,'''    fn emit_token(&mut self, token: TF::Tok) {''','''    fn begin_token(&mut self) {
        self.token = None;
        self.text = None;
        self.channel = LEXER_DEFAULT_TOKEN_CHANNEL;
        let interp = self.interpreter.as_deref().unwrap();
        self.token_start_line = interp.get_line();
        self.token_start_column = interp.get_char_position_in_line();
        self.token_start_char_index = self.input.as_mut().unwrap().index();
    }

    fn emit_token(&mut self, token: TF::Tok) {'''))
E('h-le-match-once',
 (LE,'''                let mut interpreter = self.interpreter.take().unwrap();
                //                    let mut input = self.input.take().unwrap();
                let result = interpreter.match_token(self.mode, self);
                self.interpreter = Some(interpreter);

                let ttype = result.unwrap_or_else(|err| {
                    //                            println!("error, recovering");
                    notify_listeners(&mut self.error_listeners.borrow_mut(), &err, self);
                    self.interpreter
                        .as_mut()
                        .unwrap()
                        .recover(err, self.input.as_mut().unwrap());
                    LEXER_SKIP
                });
''','''                let ttype = self.match_once();
'''),
 (LE,'''    fn emit_token(&mut self, token: TF::Tok) {''','''    fn match_once(&mut self) -> isize {
        let mut interpreter = self.interpreter.take().unwrap();
        let result = interpreter.match_token(self.mode, self);
        self.interpreter = Some(interpreter);
        match result {
            Ok(ttype) => ttype,
            Err(err) => {
                notify_listeners(&mut self.error_listeners.borrow_mut(), &err, self);
                let input = self.input.as_mut().unwrap();
                self.interpreter.as_mut().unwrap().recover(err, input);
                LEXER_SKIP
            }
        }
    }

    fn emit_token(&mut self, token: TF::Tok) {'''))
E('h-es-begin-report',
 (ES,'''        if self.in_error_recovery_mode(recognizer) {
            return;
        }

        self.begin_error_condition(recognizer);
        let expecting = self.get_expected_tokens(recognizer);
        let expecting = expecting.to_token_string(recognizer.get_vocabulary());
        let t = recognizer.get_current_token().borrow();
        let token_name''','''        if self.in_error_recovery_mode(recognizer) {
            return;
        }
        let expecting = self.begin_with_expected(recognizer);
        let t = recognizer.get_current_token().borrow();
        let token_name'''),
 (ES,'''        if self.in_error_recovery_mode(recognizer) {
            return;
        }

        self.begin_error_condition(recognizer);
        let expecting = self.get_expected_tokens(recognizer);
        let expecting = expecting.to_token_string(recognizer.get_vocabulary());
        let t = recognizer.get_current_token().borrow();
        let _token_name''','''        if self.in_error_recovery_mode(recognizer) {
            return;
        }
        let expecting = self.begin_with_expected(recognizer);
        let t = recognizer.get_current_token().borrow();
        let _token_name'''),
 (ES,'    fn report_unwanted_token<','''    fn begin_with_expected<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
        &mut self,
        recognizer: &mut T,
    ) -> String {
        self.begin_error_condition(recognizer);
        let expecting = self.get_expected_tokens(recognizer);
        expecting.to_token_string(recognizer.get_vocabulary())
    }

    fn report_unwanted_token<'''))
E('h-es-drop-recog-param',
 (ES,'''    fn begin_error_condition<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
        &mut self,
        _recognizer: &T,
    ) {''','''    fn begin_error_condition(&mut self) {'''),
 (ES,'self.begin_error_condition(recognizer)','self.begin_error_condition()'))
E('h-es-begin-returns',
 (ES,'''    fn begin_error_condition<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
        &mut self,
        _recognizer: &T,
    ) {
        self.error_recovery_mode = true;
    }''','''    /// false if an error is already being handled
    fn begin_error_condition<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
        &mut self,
        recognizer: &mut T,
    ) -> bool {
        if self.in_error_recovery_mode(recognizer) {
            return false;
        }
        self.error_recovery_mode = true;
        true
    }'''),
 (ES,'''        if self.in_error_recovery_mode(recognizer) {
            return;
        }

        self.begin_error_condition(recognizer);
''','''        if !self.begin_error_condition(recognizer) {
            return;
        }
'''),)
E('h-ts-sync-param',
 (TS,'''    fn sync(&mut self, want: isize) {
        let need = (self.p + want - 1) - self.tokens.len() as isize + 1;
        if need > 0 {
            self.fill(need);
        }
    }''','''    /// makes sure the token at buffer position `last` is there if it exists
    fn sync(&mut self, last: isize) {
        let need = last - self.tokens.len() as isize + 1;
        if need > 0 {
            self.fill(need);
        }
    }'''),
 (TS,'        self.sync(i);','        self.sync(self.p + i - 1);'),
 (TS,'        self.sync(1);','        self.sync(self.p);'),
 (TS,'self.sync(index - self.current_token_index + 1);','self.sync(self.p + index - self.current_token_index);'))
E('h-ts-eof-helper',
 (TS,'''            if self.tokens.len() > 0
                && self.tokens.last().unwrap().borrow().get_token_type() == TOKEN_EOF
            {
                return i;
            }''','''            if self.at_eof() {
                return i;
            }'''),
 (TS,'    pub(crate) fn fill(','''    fn at_eof(&self) -> bool {
        match self.tokens.last() {
            Some(t) => t.borrow().get_token_type() == TOKEN_EOF,
            None => false,
        }
    }

    pub(crate) fn fill('''))
E('h-ts-iter-struct',
 (TS,'''        if self.1 {
            return None;
        }
        let result = self.0.lt(1).unwrap().borrow().to_owned();
        if result.get_token_type() == TOKEN_EOF {
            self.1 = true;
        } else {
            self.0.consume();
        }
        Some(result)''','''        let TokenIter(stream, done, _) = self;
        if *done {
            return None;
        }
        let result = stream.lt(1).map(|t| t.borrow().to_owned()).unwrap();
        *done = result.get_token_type() == TOKEN_EOF;
        if !*done {
            stream.consume();
        }
        Some(result)'''))
dump('/tmp/ed/r15.txt')
