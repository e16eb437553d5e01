import sys; sys.path.insert(0,'/tmp')
from genlib import *
X='lexer.rs'; S='lexer_atn_simulator.rs'; C='common_token_stream.rs'; U='token_stream.rs'; P='prediction_context.rs'
E('x-start-token-helper',
 (X,'''            self.token = None;
            self.channel = LEXER_DEFAULT_TOKEN_CHANNEL;
            self.token_start_column = self
                .interpreter
                .as_ref()
                .unwrap()
                .get_char_position_in_line();
            self.token_start_line = self.interpreter.as_ref().unwrap().get_line();
            self.text = None;
            let index = self.input().index();
            self.token_start_char_index = index;
''','''            self.begin_token();
'''),
 (X,'''    fn emit_token(&mut self''','''    fn begin_token(&mut self) {
        self.text = None;
        self.token = None;
        self.channel = LEXER_DEFAULT_TOKEN_CHANNEL;
        let interpreter = self.interpreter.as_ref().unwrap();
        self.token_start_line = interpreter.get_line();
        self.token_start_column = interpreter.get_char_position_in_line();
        self.token_start_char_index = self.get_char_index();
    }

    fn emit_token(&mut self'''))
E('x-match-helper',
 (X,'''                let mut interpreter = self.interpreter.take().unwrap();
                let result = interpreter.match_token(self.mode, self);
                self.interpreter = Some(interpreter);
                let ttype = result.unwrap_or_else(|err| {
                    notify_listeners(&mut self.error_listeners.borrow_mut(), &err, self);
                    self.interpreter
                        .as_mut()
                        .unwrap()
                        .recover(err, self.input.as_mut().unwrap());
                    LEXER_SKIP
                });
''','''                let ttype = match self.run_match() {
                    Ok(t) => t,
                    Err(err) => {
                        notify_listeners(&mut self.error_listeners.borrow_mut(), &err, self);
                        let input = self.input.as_mut().unwrap();
                        self.interpreter.as_mut().unwrap().recover(err, input);
                        LEXER_SKIP
                    }
                };
'''),
 (X,'''    fn emit_token(&mut self''','''    fn run_match(&mut self) -> Result<isize, ANTLRError> {
        let mut interpreter = self.interpreter.take().unwrap();
        let result = interpreter.match_token(self.mode, self);
        self.interpreter = Some(interpreter);
        result
    }

    fn emit_token(&mut self'''))
E('x-inner-while',
 (X,'''                if self.token_type == LEXER_SKIP {
                    continue 'outer;
                }
                if self.token_type != LEXER_MORE {
                    break;
                }''','''                match self.token_type {
                    LEXER_SKIP => continue 'outer,
                    LEXER_MORE => continue 'inner,
                    _ => break 'inner,
                }'''))
E('x-default-type',
 (X,'''                if self.token_type == TOKEN_INVALID_TYPE {
                    self.token_type = ttype;
                }
''','''                self.token_type = match self.token_type {
                    TOKEN_INVALID_TYPE => ttype,
                    set => set,
                };
'''))
E('x-eof-flag',
 (X,'''                if self.input().la(1) == super::int_stream::EOF {
                    self.hit_eof = true;
                }''','''                self.hit_eof |= self.input().la(1) == super::int_stream::EOF;'''))
E('x-eof-flag2',
 (X,'''                if self.input().la(1) == super::int_stream::EOF {
                    self.hit_eof = true;
                }''','''                let next = self.input().la(1);
                self.hit_eof = self.hit_eof || next == super::int_stream::EOF;'''))
E('x-gettext-match',
 (X,'''        self.text
            .as_ref()
            .map(|it| Borrowed(it.borrow()))
            .unwrap_or_else(|| {
                let text = self
                    .input
                    .as_ref()
                    .unwrap()
                    .get_text(self.token_start_char_index, self.get_char_index() - 1);
                TF::get_data(text)
            })''','''        if let Some(it) = &self.text {
            return Borrowed(it.borrow());
        }
        let stop = self.get_char_index() - 1;
        let input = self.input.as_ref().unwrap();
        TF::get_data(input.get_text(self.token_start_char_index, stop))'''))
E('x-pop-iflet',
 (X,'''        self.mode_stack.pop().map(|mode| {
            self.mode = mode;
            mode
        })''','''        let mode = self.mode_stack.pop()?;
        self.mode = mode;
        Some(mode)'''))
E('x-push-replace',
 (X,'''        self.mode_stack.push(self.mode);
        self.mode = m;''','''        let previous = std::mem::replace(&mut self.mode, m);
        self.mode_stack.push(previous);'''))
E('x-notify-loop',
 (X,'''    let inner = lexer
        .input
        .as_ref()
        .unwrap()
        .get_text(lexer.token_start_char_index, lexer.get_char_index());
    let text = format!(
        "token recognition error at: '{}'",
        TF::get_data(inner).to_display()
    );''','''    let input = lexer.input.as_ref().unwrap();
    let stop = input.index();
    let shown = TF::get_data(input.get_text(lexer.token_start_char_index, stop)).to_display();
    let text = format!("token recognition error at: '{}'", shown);'''))
E('x-emit-locals',
 (X,'''        let token = self.factory.create(
            None::<&mut Input>,
            super::int_stream::EOF,
            None,
            LEXER_DEFAULT_TOKEN_CHANNEL,
            self.get_char_index(),
            self.get_char_index() - 1,
            self.get_line(),
            self.get_char_position_in_line(),
        );
        self.emit_token(token)''','''        let at = self.get_char_index();
        let (line, column) = (self.get_line(), self.get_char_position_in_line());
        let eof = self.factory.create(
            None::<&mut Input>,
            super::int_stream::EOF,
            None,
            LEXER_DEFAULT_TOKEN_CHANNEL,
            at,
            at - 1,
            line,
            column,
        );
        self.token = Some(eof);'''))
E('x-name-match',
 (X,'''        self.input
            .as_ref()
            .map(|it| it.get_source_name())
            .unwrap_or("<none>".to_string())''','''        match &self.input {
            Some(it) => it.get_source_name(),
            None => "<none>".to_string(),
        }'''))
E('x-outer-emit-first',
 (X,'''            if self.token.is_none() {
                self.emit();
            }
            break;
        }''','''            match self.token {
                Some(_) => {}
                None => self.emit(),
            }
            break 'outer;
        }'''))
# lexer simulator
E('s-matchtoken-helper',
 (S,'''        let result = (|| {
            self.start_index = lexer.input().index();
            self.prev_accept.reset();
            let temp = self.base.decision_to_dfa.clone();
            let dfa = temp
                .get(mode)
                .ok_or_else(|| ANTLRError::IllegalStateError("invalid mode".into()))?;
            let dfa = dfa.upgradable_read();

            let s0 = dfa.s0;
            match s0 {
                None => self.match_atn(lexer, dfa),
                Some(s0) => self.exec_atn(s0, lexer, dfa),
                //                Err(_) => panic!("dfa rwlock error")
            }
        })();
        lexer''','''        let result = self.match_in_mode(mode, lexer);
        lexer'''),
 (S,'''    #[cold]
    fn match_atn<''','''    fn match_in_mode<'input>(
        &mut self,
        mode: usize,
        lexer: &mut impl Lexer<'input>,
    ) -> Result<isize, ANTLRError> {
        self.start_index = lexer.input().index();
        self.prev_accept.reset();
        let dfas = self.base.decision_to_dfa.clone();
        let dfa = match dfas.get(mode) {
            Some(dfa) => dfa.upgradable_read(),
            None => return Err(ANTLRError::IllegalStateError("invalid mode".into())),
        };
        if let Some(s0) = dfa.s0 {
            self.exec_atn(s0, lexer, dfa)
        } else {
            self.match_atn(lexer, dfa)
        }
    }

    #[cold]
    fn match_atn<'''))
E('s-consume-helper',
 (S,'''        let ch = _input.la(1);
        if ch == '\\n' as isize {
            cell_update(&self.current_pos.line, |x| x + 1);
            self.current_pos.char_position_in_line.set(0);
        } else {
            cell_update(&self.current_pos.char_position_in_line, |x| x + 1);
        }
        _input.consume();''','''        let newline = _input.la(1) == '\\n' as isize;
        self.advance_position(newline);
        _input.consume();'''),
 (S,'''    #[cold]
    fn match_atn<''','''    fn advance_position(&self, newline: bool) {
        let pos = &self.current_pos;
        if newline {
            pos.line.set(pos.line.get() + 1);
            pos.char_position_in_line.set(0);
        } else {
            let column = pos.char_position_in_line.get();
            pos.char_position_in_line.set(column + 1);
        }
    }

    #[cold]
    fn match_atn<'''))
E('s-exec-next-helper',
 (S,'''            let target = Self::get_existing_target_state(dfa.as_ref().unwrap(), s, symbol);
            let target =
                target.unwrap_or_else(|| self.compute_target_state(&mut dfa, s, symbol, lexer));''','''            let target = match Self::get_existing_target_state(dfa.as_ref().unwrap(), s, symbol) {
                Some(known) => known,
                None => self.compute_target_state(&mut dfa, s, symbol, lexer),
            };'''))
E('s-exec-while',
 (S,'''            if self.capture_sim_state(dfa.as_ref().unwrap(), lexer.input(), target) {
                if symbol == EOF {
                    break;
                }
            }''','''            let accepted = self.capture_sim_state(dfa.as_ref().unwrap(), lexer.input(), target);
            if accepted && symbol == EOF {
                break;
            }'''))
E('s-edge-get',
 (S,'''        dfa.states[_s]
            .edges
            .get((t - MIN_DFA_EDGE) as usize)
            .and_then(|x| match x {
                0 => None,
                x => Some(x),
            })
            .copied()''','''        let edges = &dfa.states[_s].edges;
        match edges.get((t - MIN_DFA_EDGE) as usize) {
            Some(&target) if target != 0 => Some(target),
            _ => None,
        }'''))
E('s-edge-filter',
 (S,'''            .and_then(|x| match x {
                0 => None,
                x => Some(x),
            })
            .copied()''','''            .copied()
            .filter(|x| *x != 0)'''))
E('s-target-branches',
 (S,'''        if reach.is_empty() {
            if !reach.has_semantic_context() {
                self.add_dfaedge(&mut dfa_mut.states[s], _t, ERROR_DFA_STATE_REF);
            }
            *dfa = Some(RwLockWriteGuard::downgrade_to_upgradable(dfa_mut));
            return ERROR_DFA_STATE_REF;
        }

        let supress_edge = reach.has_semantic_context();
        reach.set_has_semantic_context(false);
        let to = self.add_dfastate(&mut dfa_mut, Box::new(reach));
        if !supress_edge {
            let from = &mut dfa_mut.states[s];
            self.add_dfaedge(from, _t, to);
        }
        *dfa = Some(RwLockWriteGuard::downgrade_to_upgradable(dfa_mut));
        to''','''        let supress_edge = reach.has_semantic_context();
        let to = if reach.is_empty() {
            ERROR_DFA_STATE_REF
        } else {
            reach.set_has_semantic_context(false);
            self.add_dfastate(&mut dfa_mut, Box::new(reach))
        };
        if !supress_edge {
            self.add_dfaedge(&mut dfa_mut.states[s], _t, to);
        }
        *dfa = Some(RwLockWriteGuard::downgrade_to_upgradable(dfa_mut));
        to'''))
E('s-reach-helper',
 (S,'''            let current_alt_reached_accept_state = config.get_alt() == skip_alt;
            if current_alt_reached_accept_state {
                if let ATNConfigType::LexerATNConfig {
                    passed_through_non_greedy_decision: true,
                    ..
                } = config.get_type()
                {
                    continue;
                }
            }
''','''            let current_alt_reached_accept_state = config.get_alt() == skip_alt;
            if current_alt_reached_accept_state && Self::non_greedy(config) {
                continue;
            }
'''),
 (S,'''    #[cold]
    fn match_atn<''','''    fn non_greedy(config: &ATNConfig) -> bool {
        match config.get_type() {
            ATNConfigType::LexerATNConfig {
                passed_through_non_greedy_decision,
                ..
            } => *passed_through_non_greedy_decision,
            _ => false,
        }
    }

    #[cold]
    fn match_atn<'''))
E('s-reach-guard',
 (S,'''                if let Some(target) = tr.get_reachable_target(_t) {
                    let exec = config.get_lexer_executor().map(|x| {
                        x.clone()
                            .fix_offset_before_match(lexer.input().index() - self.start_index)
                    });
                    let new = config.cloned_with_new_exec(self.atn().states[target].as_ref(), exec);
                    if self.closure(
                        new,
                        _reach,
                        current_alt_reached_accept_state,
                        true,
                        _t == EOF,
                        lexer,
                    ) {
                        skip_alt = config.get_alt();
                        break;
                    }
                }''','''                let target = match tr.get_reachable_target(_t) {
                    Some(target) => target,
                    None => continue,
                };
                let exec = match config.get_lexer_executor() {
                    Some(x) => {
                        let offset = lexer.input().index() - self.start_index;
                        Some(x.clone().fix_offset_before_match(offset))
                    }
                    None => None,
                };
                let new = config.cloned_with_new_exec(self.atn().states[target].as_ref(), exec);
                let treat_eof_as_epsilon = _t == EOF;
                let accepted = self.closure(
                    new,
                    _reach,
                    current_alt_reached_accept_state,
                    true,
                    treat_eof_as_epsilon,
                    lexer,
                );
                if accepted {
                    skip_alt = config.get_alt();
                    break;
                }'''))
E('s-fail-early',
 (S,'''        if let Some(state) = self.prev_accept.dfa_state {
            self.accept(lexer.input());

            let prediction = {
                let dfa_state_prediction = &dfa.states[state];
                if let Some(x) = dfa_state_prediction.lexer_action_executor.as_ref() {
                    x.execute(lexer, self.start_index)
                }

                dfa_state_prediction.prediction
            };
            Ok(prediction)
        } else {
            if _t == EOF && lexer.input().index() == self.start_index {
                return Ok(TOKEN_EOF);
            }
            Err(LexerNoAltError {
                start_index: self.start_index,
            })
        }''','''        let accepted = match self.prev_accept.dfa_state {
            Some(state) => state,
            None => {
                let at_start = lexer.input().index() == self.start_index;
                return if _t == EOF && at_start {
                    Ok(TOKEN_EOF)
                } else {
                    Err(LexerNoAltError {
                        start_index: self.start_index,
                    })
                };
            }
        };
        self.accept(lexer.input());
        let state = &dfa.states[accepted];
        if let Some(executor) = &state.lexer_action_executor {
            executor.execute(lexer, self.start_index);
        }
        Ok(state.prediction)'''))
E('s-accept-order',
 (S,'''        input.seek(self.prev_accept.index);
        self.current_pos.line.set(self.prev_accept.line);
        self.current_pos
            .char_position_in_line
            .set(self.prev_accept.column);''','''        let SimState {
            index,
            line,
            column,
            ..
        } = self.prev_accept;
        self.current_pos.char_position_in_line.set(column);
        self.current_pos.line.set(line);
        input.seek(index);'''))
E('s-closure-ctx-match',
 (S,'''            if config.get_context().map(|x| x.has_empty_path()) != Some(false) {
                if config.get_context().map(|x| x.is_empty()) != Some(false) {
                    _configs.add(Box::new(config));
                    return true;
                } else {''','''            let empty_path = match config.get_context() {
                Some(x) => x.has_empty_path(),
                None => true,
            };
            if empty_path {
                let empty = config.get_context().map_or(true, |x| x.is_empty());
                if empty {
                    _configs.add(Box::new(config));
                    return true;
                } else {'''))
E('s-closure-foreach',
 (S,'''                    if ctx.get_return_state(i) != PREDICTION_CONTEXT_EMPTY_RETURN_STATE {
                        let new_ctx = ctx.get_parent(i).cloned();
                        let return_state =
                            self.atn().states[ctx.get_return_state(i) as usize].as_ref();
                        let next_config = config.cloned_with_new_ctx(return_state, new_ctx);
                        _current_alt_reached_accept_state = self.closure(
                            next_config,
                            _configs,
                            _current_alt_reached_accept_state,
                            _speculative,
                            _treat_eofas_epsilon,
                            lexer,
                        )
                    }''','''                    let return_state = ctx.get_return_state(i);
                    if return_state == PREDICTION_CONTEXT_EMPTY_RETURN_STATE {
                        continue;
                    }
                    let next_config = config.cloned_with_new_ctx(
                        atn.states[return_state as usize].as_ref(),
                        ctx.get_parent(i).cloned(),
                    );
                    _current_alt_reached_accept_state = self.closure(
                        next_config,
                        _configs,
                        _current_alt_reached_accept_state,
                        _speculative,
                        _treat_eofas_epsilon,
                        lexer,
                    );'''))
E('s-closure-stop-helper',
 (S,'''            if config.get_context().map(|x| x.is_empty()) == Some(false) {
                let ctx = config.take_context();
                for i in 0..ctx.length() {
                    if ctx.get_return_state(i) != PREDICTION_CONTEXT_EMPTY_RETURN_STATE {
                        let new_ctx = ctx.get_parent(i).cloned();
                        let return_state =
                            self.atn().states[ctx.get_return_state(i) as usize].as_ref();
                        let next_config = config.cloned_with_new_ctx(return_state, new_ctx);
                        _current_alt_reached_accept_state = self.closure(
                            next_config,
                            _configs,
                            _current_alt_reached_accept_state,
                            _speculative,
                            _treat_eofas_epsilon,
                            lexer,
                        )
                    }
                }
            }

            return _current_alt_reached_accept_state;''','''            return self.closure_after_rule(
                config,
                _configs,
                _current_alt_reached_accept_state,
                _speculative,
                _treat_eofas_epsilon,
                lexer,
            );'''),
 (S,'''    fn get_epsilon_target<''','''    fn closure_after_rule<'input>(
        &self,
        mut config: ATNConfig,
        configs: &mut ATNConfigSet,
        mut reached: bool,
        speculative: bool,
        eof_as_epsilon: bool,
        lexer: &mut impl Lexer<'input>,
    ) -> bool {
        if config.get_context().map(|x| x.is_empty()) != Some(false) {
            return reached;
        }
        let ctx = config.take_context();
        for i in 0..ctx.length() {
            if ctx.get_return_state(i) != PREDICTION_CONTEXT_EMPTY_RETURN_STATE {
                let return_state = self.atn().states[ctx.get_return_state(i) as usize].as_ref();
                let next = config.cloned_with_new_ctx(return_state, ctx.get_parent(i).cloned());
                reached = self.closure(next, configs, reached, speculative, eof_as_epsilon, lexer);
            }
        }
        reached
    }

    fn get_epsilon_target<'''))
E('s-closure-eps-iflet',
 (S,'''            let c = self.get_epsilon_target(
                &mut config,
                tr.as_ref(),
                _configs,
                _speculative,
                _treat_eofas_epsilon,
                lexer,
            );

            if let Some(c) = c {
                _current''','''            if let Some(c) = self.get_epsilon_target(
                &mut config,
                tr.as_ref(),
                _configs,
                _speculative,
                _treat_eofas_epsilon,
                lexer,
            ) {
                _current'''))
E('s-eps-return',
 (S,'''            TransitionType::TRANSITION_EPSILON => {
                result = Some(_config.cloned(target));
            }''','''            TransitionType::TRANSITION_EPSILON => return Some(_config.cloned(target)),'''))
E('s-eps-pred-helper',
 (S,'''                let tr = _trans.cast::<PredicateTransition>();
                _configs.set_has_semantic_context(true);
                if self.evaluate_predicate(tr.rule_index, tr.pred_index, _speculative, lexer) {
                    result = Some(_config.cloned(target));
                }''','''                _configs.set_has_semantic_context(true);
                let PredicateTransition {
                    rule_index,
                    pred_index,
                    ..
                } = *_trans.cast::<PredicateTransition>();
                let holds = self.evaluate_predicate(rule_index, pred_index, _speculative, lexer);
                result = if holds {
                    Some(_config.cloned(target))
                } else {
                    None
                };'''))
E('s-eps-eof',
 (S,'''                if _treat_eofas_epsilon {
                    if _trans.matches(EOF, LEXER_MIN_CHAR_VALUE, LEXER_MAX_CHAR_VALUE) {
                        let target = self.atn().states[_trans.get_target()].as_ref();
                        result = Some(_config.cloned(target));
                    }
                }''','''                let matches_eof = _treat_eofas_epsilon
                    && _trans.matches(EOF, LEXER_MIN_CHAR_VALUE, LEXER_MAX_CHAR_VALUE);
                if matches_eof {
                    result = Some(_config.cloned(target));
                }'''))
E('s-pred-struct',
 (S,'''        let saved_column = self.current_pos.char_position_in_line.get();
        let saved_line = self.current_pos.line.get();
        let index = lexer.input().index();
        let marker = lexer.input().mark();
        self.consume(lexer.input());
''','''        let saved_line = self.get_line();
        let saved_column = self.get_char_position_in_line();
        let input = lexer.input();
        let index = input.index();
        let marker = input.mark();
        self.consume(input);
'''))
E('s-capture-early',
 (S,'''        if dfa.states[dfa_state].is_accept_state {
            self.prev_accept = SimState {
                index: input.index(),
                line: self.current_pos.line.get(),
                column: self.current_pos.char_position_in_line.get(),
                dfa_state: Some(dfa_state),
            };
            return true;
        }
        false''','''        let accepting = dfa.states[dfa_state].is_accept_state;
        if accepting {
            let accept = &mut self.prev_accept;
            accept.dfa_state = Some(dfa_state);
            accept.index = input.index();
            accept.column = self.current_pos.char_position_in_line.get();
            accept.line = self.current_pos.line.get();
        }
        accepting'''))
E('s-edge-bounds',
 (S,'''        if t < MIN_DFA_EDGE || t > MAX_DFA_EDGE {
            return;
        }

        if _from.edges.len() < (MAX_DFA_EDGE - MIN_DFA_EDGE + 1) as usize {
            _from
                .edges
                .resize((MAX_DFA_EDGE - MIN_DFA_EDGE + 1) as usize, 0);
        }
        _from.edges[(t - MIN_DFA_EDGE) as usize] = _to;''','''        if (MIN_DFA_EDGE..=MAX_DFA_EDGE).contains(&t) {
            let size = (MAX_DFA_EDGE - MIN_DFA_EDGE + 1) as usize;
            let edges = &mut _from.edges;
            if edges.len() < size {
                edges.resize(size, 0);
            }
            edges[(t - MIN_DFA_EDGE) as usize] = _to;
        }'''))
E('s-addstate-loop',
 (S,'''        let rule_index = dfastate
            .configs //_configs
            .get_items()
            .find(|c| RuleStopState == *self.atn().states[c.get_state()].get_state_type())
            .map(|c| {
                let rule_index = self.atn().states[c.get_state()].get_rule_index();
                (
                    self.atn().rule_to_token_type[rule_index],
                    c.get_lexer_executor()
                        .map(LexerActionExecutor::clone)
                        .map(Box::new),
                )
            });

        if let Some((prediction, exec)) = rule_index {
            dfastate.prediction = prediction;
            dfastate.lexer_action_executor = exec;
            dfastate.is_accept_state = true;
        }''','''        let stop = dfastate
            .configs
            .get_items()
            .find(|c| RuleStopState == *self.atn().states[c.get_state()].get_state_type());

        if let Some(c) = stop {
            let rule_index = self.atn().states[c.get_state()].get_rule_index();
            let exec = c.get_lexer_executor().cloned().map(Box::new);
            dfastate.is_accept_state = true;
            dfastate.prediction = self.atn().rule_to_token_type[rule_index];
            dfastate.lexer_action_executor = exec;
        }'''))
E('s-addstate-existing',
 (S,'''        if let Some(&existing) = same_hash.iter().find(|&&it| states[it] == dfastate) {
            return existing;
        }''','''        for &it in same_hash.iter() {
            if states[it] == dfastate {
                return it;
            }
        }'''))
E('s-matchatn-s0',
 (S,'''        let _supress_edge = s0_closure.has_semantic_context();
        s0_closure.set_has_semantic_context(false);

        let mut dfa_mut = RwLockUpgradableReadGuard::upgrade(dfa);
        let next_state = self.add_dfastate(&mut dfa_mut, s0_closure);
        if !_supress_edge {
            dfa_mut.s0 = Some(next_state);
        }

        self.exec_atn(
            next_state,
            lexer,
            RwLockWriteGuard::downgrade_to_upgradable(dfa_mut),
        )''','''        let cacheable = !s0_closure.has_semantic_context();
        s0_closure.set_has_semantic_context(false);

        let mut writer = RwLockUpgradableReadGuard::upgrade(dfa);
        let s0 = self.add_dfastate(&mut writer, s0_closure);
        if cacheable {
            writer.s0 = Some(s0);
        }
        let reader = RwLockWriteGuard::downgrade_to_upgradable(writer);

        self.exec_atn(s0, lexer, reader)'''))
E('s-start-foreach',
 (S,'''        for (i, tr) in _p.get_transitions().iter().enumerate() {
            let target = tr.get_target();
            let atn_config = ATNConfig::new_lexer_atnconfig6(
                target,
                (i + 1) as isize,
                EMPTY_PREDICTION_CONTEXT.clone(),
            );
            self''','''        let mut alt = 0;
        for tr in _p.get_transitions() {
            alt += 1;
            let atn_config = ATNConfig::new_lexer_atnconfig6(
                tr.get_target(),
                alt,
                EMPTY_PREDICTION_CONTEXT.clone(),
            );
            self'''))
# streams
E('c-advance-helper',
 (C,'''        self.base.consume();
        let next = self.next_token_on_channel(self.base.p, self.channel, 1);
        self.base.seek(next);''','''        self.base.consume();
        let p = self.base.p;
        self.seek(p);'''))
E('c-la-match',
 (C,'''        self.lt(i)
            .map(|t| t.borrow().get_token_type())
            .unwrap_or(TOKEN_INVALID_TYPE)''','''        match self.lt(i) {
            Some(token) => token.borrow().get_token_type(),
            None => TOKEN_INVALID_TYPE,
        }'''))
E('c-lt-match',
 (C,'''        if k == 1 {
            return self.base.tokens.get(self.base.p as usize);
        }
        if k == 0 {
            panic!();
        }
        if k < 0 {
            return self.lb(-k);
        }
        self.lt_inner(k)''','''        match k {
            0 => panic!(),
            1 => self.base.tokens.get(self.base.p as usize),
            k if k < 0 => self.lb(-k),
            k => self.lt_inner(k),
        }'''))
E('c-ltinner-for',
 (C,'''        let mut n = 1; // we know tokens[p] is a good one
        while n < k {
            if self.sync(i + 1) {
                i = self.next_token_on_channel(i + 1, self.channel, 1);
            }
            n += 1;
        }''','''        for _ in 1..k {
            let next = i + 1;
            if self.sync(next) {
                i = self.next_token_on_channel(next, self.channel, 1);
            }
        }'''))
E('c-sync-expr',
 (C,'''        if need > 0 {
            let fetched = self.base.fill(need);
            return fetched >= need;
        }
        true''','''        need <= 0 || self.base.fill(need) >= need'''))
E('c-next-loop',
 (C,'''        let mut token = self.base.tokens[i as usize].borrow();
        while token.get_channel() != channel {
            if token.get_token_type() == EOF || i < 0 {
                return i;
            }

            i += direction;
            if i < 0 {
                return i;
            }
            self.sync(i);
            token = self.base.tokens[i as usize].borrow();
        }

        return i;''','''        loop {
            let token = self.base.tokens[i as usize].borrow();
            if token.get_channel() == channel || token.get_token_type() == EOF {
                return i;
            }
            i += direction;
            if i < 0 {
                return i;
            }
            self.sync(i);
        }'''))
E('c-lb-for',
 (C,'''        let mut n = 1;
        while n <= k && i > 0 {
            i = self.next_token_on_channel(i - 1, self.channel, -1);
            n += 1;
        }
        if i < 0 || n <= k {
            return None;
        }''','''        let mut left = k;
        while left > 0 && i > 0 {
            i = self.next_token_on_channel(i - 1, self.channel, -1);
            left -= 1;
        }
        if i < 0 || left > 0 {
            return None;
        }'''))
E('u-fill-helper',
 (U,'''            let token = self.token_source.next_token();
            token
                .borrow()
                .set_token_index(self.get_buffer_start_index() + self.tokens.len() as isize);
            self.tokens.push(token);
        }
        need''','''            self.fetch();
        }
        need'''),
 (U,'''    fn get_buffer_start_index(''','''    fn fetch(&mut self) {
        let index = self.get_buffer_start_index() + self.tokens.len() as isize;
        let token = self.token_source.next_token();
        token.borrow().set_token_index(index);
        self.tokens.push(token);
    }

    fn get_buffer_start_index('''))
E('u-fill-last',
 (U,'''            if self.tokens.len() > 0
                && self.tokens.last().unwrap().borrow().get_token_type() == TOKEN_EOF
            {
                return i;
            }''','''            if let Some(last) = self.tokens.last() {
                if last.borrow().get_token_type() == TOKEN_EOF {
                    return i;
                }
            }'''))
E('u-lt-get-or-last',
 (U,'''        let index = self.p + i - 1;
        if index >= self.tokens.len() as isize {
            return self.tokens.last(); // EOF
        }
        self.tokens.get(index as usize)''','''        let index = self.p + i - 1;
        let available = self.tokens.len() as isize;
        if index < available {
            self.tokens.get(index as usize)
        } else {
            self.tokens.last()
        }'''))
E('u-text-iter',
 (U,'''        for i in a..(b + 1) {
            let t = self.tokens[i as usize].borrow();
            if t.get_token_type() == TOKEN_EOF {
                break;
            }
            buf.extend(t.get_text().to_display().chars());
        }''','''        let mut i = a;
        while i <= b {
            let t = self.tokens[i as usize].borrow();
            if t.get_token_type() == TOKEN_EOF {
                break;
            }
            buf.push_str(&t.get_text().to_display());
            i += 1;
        }'''))
E('u-release-flat',
 (U,'''        self.markers_count -= 1;
        if self.markers_count == 0 {
            if self.p > 0 {
                self.tokens.drain(0..self.p as usize);
                self.p = 0;
            }
        }''','''        self.markers_count -= 1;
        if self.markers_count != 0 || self.p <= 0 {
            return;
        }
        self.tokens.drain(..self.p as usize);
        self.p = 0;'''))
E('u-seek-let',
 (U,'''        let i = index - self.get_buffer_start_index();
        if i < 0 || i >= self.tokens.len() as isize {
            panic!()
        }
        self.p = i;
        self.current_token_index = index;''','''        let i = index - self.get_buffer_start_index();
        let buffered = 0..self.tokens.len() as isize;
        if !buffered.contains(&i) {
            panic!()
        }
        self.current_token_index = index;
        self.p = i;'''))
E('u-iter-early',
 (U,'''        let result = self.0.lt(1).unwrap().borrow().to_owned();
        if result.get_token_type() == TOKEN_EOF {
            self.1 = true;
        } else {
            self.0.consume();
        }
        Some(result)''','''        let token = self.0.lt(1).unwrap().borrow().to_owned();
        let at_end = token.get_token_type() == TOKEN_EOF;
        self.1 = at_end;
        if !at_end {
            self.0.consume();
        }
        Some(token)'''))
# prediction context
E('p-merge-lookup-helper',
 (P,'''        if let Some(cache) = merge_cache {
            if let Some(old) = cache
                .get(&(a.clone(), b.clone()))
                .or_else(|| cache.get(&(b.clone(), a.clone())))
            {
                return old.clone();
            }
        }''','''        if let Some(cache) = merge_cache {
            if let Some(old) = cache.get(&(a.clone(), b.clone())) {
                return old.clone();
            }
            if let Some(old) = cache.get(&(b.clone(), a.clone())) {
                return old.clone();
            }
        }'''))
E('p-merge-wild-or',
 (P,'''                if root_is_wildcard {
                    if sa.is_empty() {
                        return EMPTY_PREDICTION_CONTEXT.clone();
                    }
                    if sb.is_empty() {
                        return EMPTY_PREDICTION_CONTEXT.clone();
                    }
                }
''','''                if root_is_wildcard && (sa.is_empty() || sb.is_empty()) {
                    return EMPTY_PREDICTION_CONTEXT.clone();
                }
'''))
E('p-singletons-if',
 (P,'''        Self::merge_root(a, b, root_is_wildcard).unwrap_or_else(|| {
            if a.return_state''','''        if let Some(root) = Self::merge_root(a, b, root_is_wildcard) {
            return root;
        }
        {
            if a.return_state'''),
 (P,'''                Array(result)
            }
            .alloc()
        })''','''                Array(result)
            }
            .alloc()
        }'''))
E('p-singletons-swap',
 (P,'''                if !result.return_states.windows(2).all(|x| x[0] <= x[1]) {
                    result.parents.swap(0, 1);
                    result.return_states.swap(0, 1);
                }''','''                if result.return_states[0] > result.return_states[1] {
                    result.return_states.swap(0, 1);
                    result.parents.swap(0, 1);
                }'''))
E('p-root-helper',
 (P,'''            if a.is_empty() {
                return Some(
                    Self::new_array(
                        vec![b.parent_ctx.clone(), None],
                        vec![b.return_state, PREDICTION_CONTEXT_EMPTY_RETURN_STATE],
                    )
                    .alloc(),
                );
            }
            if b.is_empty() {
                return Some(
                    Self::new_array(
                        vec![a.parent_ctx.clone(), None],
                        vec![a.return_state, PREDICTION_CONTEXT_EMPTY_RETURN_STATE],
                    )
                    .alloc(),
                );
            }''','''            if a.is_empty() {
                return Some(Self::with_empty(b));
            }
            if b.is_empty() {
                return Some(Self::with_empty(a));
            }'''),
 (P,'''    fn merge_root(''','''    fn with_empty(s: &SingletonPredictionContext) -> Arc<PredictionContext> {
        let parents = vec![s.parent_ctx.clone(), None];
        let states = vec![s.return_state, PREDICTION_CONTEXT_EMPTY_RETURN_STATE];
        Self::new_array(parents, states).alloc()
    }

    fn merge_root('''))
E('p-arrays-push-once',
 (P,'''                if both || ax_ax {
                    merged.return_states.push(payload);
                    merged.parents.push(a_parent.cloned());
                } else {
                    let merged_parent = Self::merge(
                        a_parent.unwrap(),
                        b_parent.unwrap(),
                        root_is_wildcard,
                        merge_cache,
                    );
                    merged.return_states.push(payload);
                    merged.parents.push(Some(merged_parent));
                }''','''                let parent = if both || ax_ax {
                    a_parent.cloned()
                } else {
                    Some(Self::merge(
                        a_parent.unwrap(),
                        b_parent.unwrap(),
                        root_is_wildcard,
                        merge_cache,
                    ))
                };
                merged.return_states.push(payload);
                merged.parents.push(parent);'''))
E('p-arrays-cmp',
 (P,'''            if a.return_states[i] == b.return_states[j] {
                let payload = a.return_states[i];
''','''            let (a_state, b_state) = (a.return_states[i], b.return_states[j]);
            if a_state == b_state {
                let payload = a_state;
'''))
E('p-arrays-tail-while',
 (P,'''        if i < a.return_states.len() {
            for p in i..a.return_states.len() {
                merged.parents.push(a.parents[p].clone());
                merged.return_states.push(a.return_states[p]);
            }
        }''','''        while i < a.return_states.len() {
            merged.parents.push(a.parents[i].clone());
            merged.return_states.push(a.return_states[i]);
            i += 1;
        }'''))
E('p-arrays-tail-noif',
 (P,'''        if j < b.return_states.len() {
            for p in j..b.return_states.len() {
                merged.parents.push(b.parents[p].clone());
                merged.return_states.push(b.return_states[p]);
            }
        }''','''        for p in j..b.return_states.len() {
            merged.return_states.push(b.return_states[p]);
            merged.parents.push(b.parents[p].clone());
        }'''))
E('p-from-let',
 (P,'''        if outer_context.get_parent_ctx().is_none() || outer_context.is_empty()
        /*ptr::eq(outer_context, empty_ctx().as_ref())*/
        {
            return EMPTY_PREDICTION_CONTEXT.clone();
        }

        let parent = PredictionContext::from_rule_context::<Ctx>(
            atn,
            outer_context.get_parent_ctx().unwrap().deref(),
        );
''','''        let parent_ctx = match outer_context.get_parent_ctx() {
            Some(parent) if !outer_context.is_empty() => parent,
            _ => return EMPTY_PREDICTION_CONTEXT.clone(),
        };

        let parent = PredictionContext::from_rule_context::<Ctx>(atn, &*parent_ctx);
'''))
E('p-common-entry',
 (P,'''            let parent = array.parents[p].as_ref().cloned();
            if !uniq_parents.contains_key(&parent) {
                uniq_parents.insert(parent.clone(), parent.clone());
            }''','''            let parent = array.parents[p].clone();
            uniq_parents
                .entry(parent.clone())
                .or_insert_with(|| parent.clone());'''))
E('p-common-for',
 (P,'''        array.parents.iter_mut().for_each(|parent| {
            *parent = (*uniq_parents.get(parent).unwrap()).clone();
        });''','''        for parent in array.parents.iter_mut() {
            *parent = uniq_parents[parent].clone();
        }'''))
E('p-hash-match',
 (P,'''                hasher.write_i32(*return_state as i32);
            }''','''                let state = *return_state as i32;
                hasher.write_i32(state);
            }'''))
E('p-hash-for',
 (P,'''                parents.iter().for_each(|x| {
                    hasher.write_i32(match x {
                        None => 0,
                        Some(x) => x.hash_code(),
                    })
                });
                return_states
                    .iter()
                    .for_each(|x| hasher.write_i32(*x as i32));''','''                for parent in parents {
                    let code = parent.as_ref().map_or(0, |x| x.hash_code());
                    hasher.write_i32(code);
                }
                for state in return_states {
                    hasher.write_i32(*state as i32);
                }'''))
E('p-isempty-match',
 (P,'''        if let PredictionContext::Singleton(singleton) = self {
            return singleton.is_empty();
        }
        self.get_return_state(0) == PREDICTION_CONTEXT_EMPTY_RETURN_STATE''','''        match self {
            PredictionContext::Singleton(singleton) => singleton.is_empty(),
            PredictionContext::Array(array) => {
                array.return_states[0] == PREDICTION_CONTEXT_EMPTY_RETURN_STATE
            }
        }'''))
E('p-shared-cached-helper',
 (P,'''        if let Some(old) = self.cache.read().unwrap().get(context) {
            return old.clone();
        }''','''        let known = self.cache.read().unwrap().get(context).cloned();
        if let Some(old) = known {
            return old;
        }'''))
E('p-shared-remember',
 (P,'''            self.cache
                .write()
                .unwrap()
                .insert(context.clone(), context.clone());
            visited.insert(context.deref(), context.clone());
            return context.clone();''','''            self.remember(context);
            visited.insert(context.deref(), context.clone());
            return context.clone();'''),
 (P,'''        self.cache
            .write()
            .unwrap()
            .insert(updated.clone(), updated.clone());
        visited.insert(context''','''        self.remember(&updated);
        visited.insert(context'''),
 (P,'''    #[doc(hidden)]
    pub fn length(&self) -> usize {
        self.cache''','''    fn remember(&self, context: &Arc<PredictionContext>) {
        let mut cache = self.cache.write().unwrap();
        cache.insert(context.clone(), context.clone());
    }

    #[doc(hidden)]
    pub fn length(&self) -> usize {
        self.cache'''))
dump('/tmp/ed/r19.txt')
