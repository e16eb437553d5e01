import sys; sys.path.insert(0,'/tmp')
from genlib import *
S='error_strategy.rs'; M='semantic_context.rs'; L='ll1_analyzer.rs'; C='atn_config_set.rs'
GEN='''<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>'''
E('es-start-error-helper',
 (S,'''    fn report_unwanted_token<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
        &mut self,
        recognizer: &mut T,
    ) {
        if self.in_error_recovery_mode(recognizer) {
            return;
        }

        self.begin_error_condition(recognizer);
        let expecting = self.get_expected_tokens(recognizer);
        let expecting = expecting.to_token_string(recognizer.get_vocabulary());
''','''    fn start_report<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
        &mut self,
        recognizer: &mut T,
    ) -> Option<String> {
        if self.in_error_recovery_mode(recognizer) {
            return None;
        }
        self.begin_error_condition(recognizer);
        Some(
            self.get_expected_tokens(recognizer)
                .to_token_string(recognizer.get_vocabulary()),
        )
    }

    fn report_unwanted_token<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
        &mut self,
        recognizer: &mut T,
    ) {
        let expecting = match self.start_report(recognizer) {
            Some(x) => x,
            None => return,
        };
'''),
 (S,'''        if self.in_error_recovery_mode(recognizer) {
            return;
        }

        self.begin_error_condition(recognizer);
        let expecting = self.get_expected_tokens(recognizer);
        let expecting = expecting.to_token_string(recognizer.get_vocabulary());
        let t = recognizer.get_current_token().borrow();
        let _token_name = self.get_token_error_display(t);
        let msg''','''        let expecting = match self.start_report(recognizer) {
            Some(x) => x,
            None => return,
        };
        let t = recognizer.get_current_token().borrow();
        let msg'''))
E('es-emit-helper',
 (S,'''        let t = recognizer.get_current_token().borrow();
        let token_name = self.get_token_error_display(t);
        let msg = format!("extraneous input {} expecting {}", token_name, expecting);
        let t = t.get_token_index();
        recognizer.notify_error_listeners(msg, Some(t), None);
    }
''','''        let (shown, idx) = self.current_shown(recognizer);
        recognizer.notify_error_listeners(
            format!("extraneous input {} expecting {}", shown, expecting),
            Some(idx),
            None,
        );
    }

    fn current_shown<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
        &self,
        recognizer: &T,
    ) -> (String, isize) {
        let t = recognizer.get_current_token().borrow();
        (self.get_token_error_display(t), t.get_token_index())
    }
'''),
 (S,'''        let t = recognizer.get_current_token().borrow();
        let _token_name = self.get_token_error_display(t);
        let msg = format!(
            "missing {} at {}",
            expecting,
            self.get_token_error_display(t)
        );
        let t = t.get_token_index();
        recognizer.notify_error_listeners(msg, Some(t), None);''','''        let (shown, idx) = self.current_shown(recognizer);
        recognizer.notify_error_listeners(
            format!("missing {} at {}", expecting, shown),
            Some(idx),
            None,
        );'''))
E('es-drop-begin-param',
 (S,'''    fn begin_error_condition<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
        &mut self,
        _recognizer: &T,
    ) {''','''    fn begin_error_condition(&mut self) {'''),
 (S,'''        self.begin_error_condition(recognizer);
        let expecting = self.get_expected_tokens(recognizer);
        let expecting = expecting.to_token_string(recognizer.get_vocabulary());
        let t = recognizer.get_current_token().borrow();
        let token_name''','''        self.begin_error_condition();
        let expecting = self.get_expected_tokens(recognizer);
        let expecting = expecting.to_token_string(recognizer.get_vocabulary());
        let t = recognizer.get_current_token().borrow();
        let token_name'''),
 (S,'''        self.begin_error_condition(recognizer);
        let expecting = self.get_expected_tokens(recognizer);
        let expecting = expecting.to_token_string(recognizer.get_vocabulary());
        let t = recognizer.get_current_token().borrow();
        let _token_name''','''        self.begin_error_condition();
        let expecting = self.get_expected_tokens(recognizer);
        let expecting = expecting.to_token_string(recognizer.get_vocabulary());
        let t = recognizer.get_current_token().borrow();
        let _token_name'''),
 (S,'''        self.begin_error_condition(recognizer);
        let msg = match e''','''        self.begin_error_condition();
        let msg = match e'''))
E('es-end-inline',
 (S,'''    fn reset(&mut self, recognizer: &mut T) {
        self.end_error_condition(recognizer)
    }''','''    fn reset(&mut self, _recognizer: &mut T) {
        self.error_recovery_mode = false;
        self.last_error_states = None;
        self.last_error_index = -1;
    }'''))
E('es-insertion-ret',
 (S,'''        if expect_at_ll2.contains(current_token) {
            self.report_missing_token(recognizer);
            return true;
        }
        false
    }''','''        let found = expect_at_ll2.contains(current_token);
        if found {
            self.report_missing_token(recognizer);
        }
        found
    }'''))
E('es-insertion-helper',
 (S,'''        let atn = recognizer.get_interpreter().atn();
        let current_state = atn.states[recognizer.get_state() as usize].as_ref();
        let next = current_state
            .get_transitions()
            .first()
            .unwrap()
            .get_target();
        let expect_at_ll2 = atn.next_tokens_in_ctx::<Ctx>(
            atn.states[next].as_ref(),
            Some(recognizer.get_parser_rule_context().deref()),
        );
        if expect_at_ll2.contains(current_token) {
            self.report_missing_token(recognizer);
            return true;
        }
        false
    }''','''        if self.expected_after_current(recognizer).contains(current_token) {
            self.report_missing_token(recognizer);
            return true;
        }
        false
    }

    fn expected_after_current<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
        &self,
        recognizer: &T,
    ) -> IntervalSet {
        let atn = recognizer.get_interpreter().atn();
        let transitions = atn.states[recognizer.get_state() as usize].get_transitions();
        let next = transitions[0].get_target();
        let ctx = recognizer.get_parser_rule_context();
        atn.next_tokens_in_ctx::<Ctx>(&*atn.states[next], Some(&**ctx))
    }'''))
E('es-deletion-early',
 (S,'''        if expecting.contains(next_token_type) {
            self.report_unwanted_token(recognizer);
            recognizer.consume(self);
            self.report_match(recognizer);
            let matched_symbol = recognizer.get_current_token();
            return Some(matched_symbol);
        }
        None
    }''','''        if !expecting.contains(next_token_type) {
            return None;
        }
        self.report_unwanted_token(recognizer);
        recognizer.consume(self);
        self.report_match(recognizer);
        Some(recognizer.get_current_token())
    }'''))
E('es-missing-text-helper',
 (S,'''        let expected = self.get_expected_tokens(recognizer);
        let expected_token_type = expected.get_min().unwrap_or(TOKEN_INVALID_TYPE);
        let token_text = if expected_token_type == TOKEN_EOF {
            "<missing EOF>".to_owned()
        } else {
            format!(
                "<missing {}>",
                recognizer
                    .get_vocabulary()
                    .get_display_name(expected_token_type)
            )
        };
        let token_text = <T::TF as TokenFactory<'input>>::Data::from_text(&token_text);''','''        let expected_token_type = match self.get_expected_tokens(recognizer).get_min() {
            Some(x) => x,
            None => TOKEN_INVALID_TYPE,
        };
        let token_text = Self::missing_text(recognizer, expected_token_type);
        let token_text = <T::TF as TokenFactory<'input>>::Data::from_text(&token_text);'''),
 (S,'''    fn get_expected_tokens<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
        &self,''','''    fn missing_text<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
        recognizer: &T,
        ttype: isize,
    ) -> String {
        match ttype {
            TOKEN_EOF => String::from("<missing EOF>"),
            other => {
                let name = recognizer.get_vocabulary().get_display_name(other);
                format!("<missing {}>", name)
            }
        }
    }

    fn get_expected_tokens<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
        &self,'''))
E('es-missing-pos',
 (S,'''        let mut curr = recognizer.get_current_token().borrow();
        if curr.get_token_type() == TOKEN_EOF {
            curr = recognizer
                .get_input_stream()
                .run(|it| it.get((it.index() - 1).max(0)).borrow());
        }
        let (line, column) = (curr.get_line(), curr.get_column());''','''        let current = recognizer.get_current_token().borrow();
        let at = if current.get_token_type() == TOKEN_EOF {
            let input = recognizer.get_input_stream();
            let idx = input.index() - 1;
            input.get(if idx < 0 { 0 } else { idx }).borrow()
        } else {
            current
        };
        let line = at.get_line();
        let column = at.get_column();'''))
E('es-recset-loop',
 (S,'''        let mut ctx = Some(recognizer.get_parser_rule_context().clone());
        let mut recover_set = IntervalSet::new();
        while let Some(c) = ctx {
            if c.get_invoking_state() < 0 {
                break;
            }
''','''        let mut recover_set = IntervalSet::new();
        let mut ctx = Some(recognizer.get_parser_rule_context().clone());
        loop {
            let c = match ctx {
                Some(c) if c.get_invoking_state() >= 0 => c,
                _ => break,
            };
'''))
E('es-recset-helper',
 (S,'''            let invoking_state = atn.states[c.get_invoking_state() as usize].as_ref();
            let tr = invoking_state.get_transitions().first().unwrap().as_ref();
            let tr = tr.cast::<RuleTransition>();
            let follow = atn.next_tokens(atn.states[tr.follow_state].as_ref());
            recover_set.add_set(follow);
            ctx''','''            recover_set.add_set(follow_of(atn, c.get_invoking_state() as usize));
            ctx'''),
 (S,'''#[derive(Default, Debug)]
pub struct BailErrorStrategy''','''fn follow_of(atn: &crate::atn::ATN, invoking: usize) -> &IntervalSet {
    let tr = atn.states[invoking].get_transitions()[0]
        .as_ref()
        .cast::<RuleTransition>();
    atn.next_tokens(atn.states[tr.follow_state].as_ref())
}

#[derive(Default, Debug)]
pub struct BailErrorStrategy'''))
E('es-consume-until-loop',
 (S,'''        let mut ttype = recognizer.get_input_stream_mut().la(1);
        while ttype != TOKEN_EOF && !set.contains(ttype) {
            recognizer.consume(self);
            ttype = recognizer.get_input_stream_mut().la(1);
        }''','''        loop {
            let ttype = recognizer.get_input_stream_mut().la(1);
            if ttype == TOKEN_EOF || set.contains(ttype) {
                return;
            }
            recognizer.consume(self);
        }'''))
E('es-recinline-match',
 (S,'''        let t = self
            .single_token_deletion(recognizer)
            .map(|it| it.to_owned());
        if let Some(t) = t {
            recognizer.consume(self);
            return Ok(t);
        }
''','''        if let Some(t) = self.single_token_deletion(recognizer).cloned() {
            recognizer.consume(self);
            return Ok(t);
        }
'''))
E('es-recinline-err',
 (S,'''        if let Some(next_tokens_ctx) = &self.next_tokens_ctx {
            Err(ANTLRError::InputMismatchError(
                InputMisMatchError::with_state(
                    recognizer,
                    self.next_tokens_state,
                    next_tokens_ctx.clone(),
                ),
            ))
        } else {
            Err(ANTLRError::InputMismatchError(InputMisMatchError::new(
                recognizer,
            )))
        }''','''        let err = match self.next_tokens_ctx.clone() {
            Some(ctx) => InputMisMatchError::with_state(recognizer, self.next_tokens_state, ctx),
            None => InputMisMatchError::new(recognizer),
        };
        Err(ANTLRError::InputMismatchError(err))'''))
E('es-recover-guard',
 (S,'''        if self.last_error_index == recognizer.get_input_stream_mut().index()
            && self.last_error_states.is_some()
            && self
                .last_error_states
                .as_ref()
                .unwrap()
                .contains(recognizer.get_state())
        {
            recognizer.consume(self)
        }
''','''        let at_same_index = recognizer.get_input_stream_mut().index() == self.last_error_index;
        let stuck = at_same_index
            && match &self.last_error_states {
                Some(states) => states.contains(recognizer.get_state()),
                None => false,
            };
        if stuck {
            recognizer.consume(self);
        }
'''))
E('es-recover-guard2',
 (S,'''            && self.last_error_states.is_some()
            && self
                .last_error_states
                .as_ref()
                .unwrap()
                .contains(recognizer.get_state())''','''            && self
                .last_error_states
                .as_ref()
                .map_or(false, |states| states.contains(recognizer.get_state()))'''))
E('es-recover-insert',
 (S,'''        self.last_error_states
            .get_or_insert(IntervalSet::new())
            .apply(|x| x.add_one(recognizer.get_state()));''','''        self.last_error_states
            .get_or_insert_with(IntervalSet::new)
            .add_one(recognizer.get_state());'''))
E('es-recover-insert2',
 (S,'''        self.last_error_states
            .get_or_insert(IntervalSet::new())
            .apply(|x| x.add_one(recognizer.get_state()));''','''        let state = recognizer.get_state();
        match &mut self.last_error_states {
            Some(x) => x.add_one(state),
            None => {
                let mut x = IntervalSet::new();
                x.add_one(state);
                self.last_error_states = Some(x);
            }
        }'''))
E('es-sync-chain',
 (S,'''            self.next_tokens_state = ATNSTATE_INVALID_STATE_NUMBER;
            self.next_tokens_ctx = None;
            return Ok(());
        }

        if next_tokens.contains(TOKEN_EPSILON) {
            if self.next_tokens_ctx.is_none() {
                self.next_tokens_state = recognizer.get_state();
                self.next_tokens_ctx = Some(recognizer.get_parser_rule_context().clone());
            }
            return Ok(());
        }

        match''','''            self.next_tokens_ctx = None;
            self.next_tokens_state = ATNSTATE_INVALID_STATE_NUMBER;
            return Ok(());
        } else if next_tokens.contains(TOKEN_EPSILON) {
            if let None = self.next_tokens_ctx {
                self.next_tokens_ctx = Some(Rc::clone(recognizer.get_parser_rule_context()));
                self.next_tokens_state = recognizer.get_state();
            }
            return Ok(());
        }

        match'''))
E('es-sync-consts',
 (S,'''        match state.get_state_type_id() {
            ATNSTATE_BLOCK_START
            | ATNSTATE_PLUS_BLOCK_START
            | ATNSTATE_STAR_BLOCK_START
            | ATNSTATE_STAR_LOOP_ENTRY => {
                if self.single_token_deletion(recognizer).is_none() {
                    return Err(ANTLRError::InputMismatchError(InputMisMatchError::new(
                        recognizer,
                    )));
                }
            }
            ATNSTATE_PLUS_LOOP_BACK | ATNSTATE_STAR_LOOP_BACK => {
                self.report_unwanted_token(recognizer);
                let mut expecting = recognizer.get_expected_tokens();
                expecting.add_set(&self.get_error_recovery_set(recognizer));
                self.consume_until(recognizer, &expecting);
            }
            _ => panic!("invalid ANTState type id"),
        }

        Ok(())
    }''','''        let id = state.get_state_type_id();
        if id == ATNSTATE_PLUS_LOOP_BACK || id == ATNSTATE_STAR_LOOP_BACK {
            self.report_unwanted_token(recognizer);
            let mut expecting = self.get_expected_tokens(recognizer);
            expecting.add_set(&self.get_error_recovery_set(recognizer));
            self.consume_until(recognizer, &expecting);
            return Ok(());
        }
        if id == ATNSTATE_BLOCK_START
            || id == ATNSTATE_PLUS_BLOCK_START
            || id == ATNSTATE_STAR_BLOCK_START
            || id == ATNSTATE_STAR_LOOP_ENTRY
        {
            return match self.single_token_deletion(recognizer) {
                Some(_) => Ok(()),
                None => Err(ANTLRError::InputMismatchError(InputMisMatchError::new(
                    recognizer,
                ))),
            };
        }
        panic!("invalid ANTState type id")
    }'''))
E('es-sync-helper',
 (S,'''                self.report_unwanted_token(recognizer);
                let mut expecting = recognizer.get_expected_tokens();
                expecting.add_set(&self.get_error_recovery_set(recognizer));
                self.consume_until(recognizer, &expecting);
            }
            _ => panic''','''                self.resync_loop(recognizer);
            }
            _ => panic'''),
 (S,'''    fn consume_until<T: Parser''','''    fn resync_loop<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(&mut self, recognizer: &mut T) {
        self.report_unwanted_token(recognizer);
        let recovery = self.get_error_recovery_set(recognizer);
        let mut expecting = recognizer.get_expected_tokens();
        expecting.add_set(&recovery);
        self.consume_until(recognizer, &expecting);
    }

    fn consume_until<T: Parser'''))
E('es-report-iflet',
 (S,'''        let msg = match e {
            ANTLRError::NoAltError(e) => self.report_no_viable_alternative(recognizer, e),
            ANTLRError::InputMismatchError(e) => self.report_input_mismatch(recognizer, e),
            ANTLRError::PredicateError(e) => self.report_failed_predicate(recognizer, e),
            _ => e.to_string(),
        };
        let offending_token_index = e.get_offending_token().map(|it| it.get_token_index());
        recognizer''','''        let msg = if let ANTLRError::NoAltError(x) = e {
            self.report_no_viable_alternative(recognizer, x)
        } else if let ANTLRError::InputMismatchError(x) = e {
            self.report_input_mismatch(recognizer, x)
        } else if let ANTLRError::PredicateError(x) = e {
            self.report_failed_predicate(recognizer, x)
        } else {
            format!("{}", e)
        };
        let offending_token_index = match e.get_offending_token() {
            Some(it) => Some(it.get_token_index()),
            None => None,
        };
        recognizer'''))
E('es-report-helper',
 (S,'''        let msg = match e {
            ANTLRError::NoAltError(e) => self.report_no_viable_alternative(recognizer, e),
            ANTLRError::InputMismatchError(e) => self.report_input_mismatch(recognizer, e),
            ANTLRError::PredicateError(e) => self.report_failed_predicate(recognizer, e),
            _ => e.to_string(),
        };''','''        let msg = self.describe(recognizer, e);'''),
 (S,'''    fn consume_until<T: Parser''','''    fn describe<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
        &self,
        recognizer: &mut T,
        e: &ANTLRError,
    ) -> String {
        match e {
            ANTLRError::NoAltError(e) => self.report_no_viable_alternative(recognizer, e),
            ANTLRError::InputMismatchError(e) => self.report_input_mismatch(recognizer, e),
            ANTLRError::PredicateError(e) => self.report_failed_predicate(recognizer, e),
            other => other.to_string(),
        }
    }

    fn consume_until<T: Parser'''))
E('es-noviable-concat',
 (S,'''        let input = if e.start_token.token_type == TOKEN_EOF {
            "<EOF>".to_owned()
        } else {
            recognizer.get_input_stream_mut().get_text_from_interval(
                e.start_token.get_token_index(),
                e.base.offending_token.get_token_index(),
            )
        };
''','''        let start = &e.start_token;
        let input = match start.token_type {
            TOKEN_EOF => "<EOF>".to_string(),
            _ => {
                let from = start.get_token_index();
                let to = e.base.offending_token.get_token_index();
                recognizer
                    .get_input_stream_mut()
                    .get_text_from_interval(from, to)
            }
        };
'''))
E('es-mismatch-let',
 (S,'''        format!(
            "mismatched input {} expecting {}",
            self.get_token_error_display(&e.base.offending_token),
            e.base
                .get_expected_tokens(recognizer)
                .to_token_string(recognizer.get_vocabulary())
        )''','''        let got = self.get_token_error_display(&e.base.offending_token);
        let expected = e.base.get_expected_tokens(recognizer);
        let vocabulary = recognizer.get_vocabulary();
        let mut msg = String::from("mismatched input ");
        msg.push_str(&got);
        msg.push_str(" expecting ");
        msg.push_str(&expected.to_token_string(vocabulary));
        msg'''))
E('es-quote-str',
 (S,'''        format!("'{}'", escape_whitespaces(s, false))''','''        let escaped = escape_whitespaces(s, false);
        format!("'{}'", escaped)'''))
E('es-process-loop',
 (S,'''        let mut ctx = recognizer.get_parser_rule_context().clone();
        let _: Option<()> = (|| {
            loop {
                ctx.set_exception(e.clone());
                ctx = ctx.get_parent()?
            }
            Some(())
        })();
        return ''','''        let mut ctx = Some(recognizer.get_parser_rule_context().clone());
        while let Some(c) = ctx {
            c.set_exception(e.clone());
            ctx = c.get_parent();
        }
        return '''))
E('es-process-loop2',
 (S,'''        let _: Option<()> = (|| {
            loop {
                ctx.set_exception(e.clone());
                ctx = ctx.get_parent()?
            }
            Some(())
        })();
        return ''','''        loop {
            ctx.set_exception(e.clone());
            match ctx.get_parent() {
                Some(parent) => ctx = parent,
                None => break,
            }
        }
        '''))
E('es-bail-wrap-helper',
 (S,'''        return ANTLRError::FallThrough(Rc::new(ParseCancelledError(e.clone())));
    }''','''        Self::cancelled(e.clone())
    }

    fn cancelled(e: ANTLRError) -> ANTLRError {
        ANTLRError::FallThrough(Rc::new(ParseCancelledError(e)))
    }'''))
E('es-cancel-display',
 (S,'''        f.write_str("ParseCancelledError, caused by ")?;
        self.0.fmt(f)''','''        match f.write_str("ParseCancelledError, caused by ") {
            Ok(()) => Display::fmt(&self.0, f),
            Err(x) => Err(x),
        }'''))
# semantic_context
COL='''        let mut operands = HashSet::with_hasher(MurmurHasherBuilder {});
        if let SemanticContext::AND(ops) = a {
            operands.extend(ops.iter().cloned())
        } else {
            operands.insert(a.clone());
        }
        if let SemanticContext::AND(ops) = b {
            operands.extend(ops.iter().cloned())
        } else {
            operands.insert(b.clone());
        }
'''
E('sc-and-collect',
 (M,COL,'''        let mut operands = HashSet::with_hasher(MurmurHasherBuilder {});
        Self::and_operands(a, &mut operands);
        Self::and_operands(b, &mut operands);
'''),
 (M,'''    pub fn new_and(''','''    fn and_operands(
        ctx: &SemanticContext,
        operands: &mut HashSet<SemanticContext, MurmurHasherBuilder>,
    ) {
        match ctx {
            SemanticContext::AND(ops) => operands.extend(ops.iter().cloned()),
            other => {
                operands.insert(other.clone());
            }
        }
    }

    pub fn new_and('''))
E('sc-or-loop',
 (M,'''            ops.iter().for_each(|it| {
                operands.insert(it.clone());
            });''','''            for it in ops {
                operands.insert(it.clone());
            }'''))
E('sc-or-extend',
 (M,'''            ops.iter().for_each(|it| {
                operands.insert(it.clone());
            });''','''            operands.extend(ops.iter().cloned());'''))
E('sc-and-insertmin',
 (M,'''        if !precedence_predicates.is_empty() {
            let reduced = precedence_predicates.iter().min_by(sort_prec_pred);
            operands.insert(reduced.unwrap().clone());
        }
''','''        if let Some(reduced) = precedence_predicates.iter().min_by(sort_prec_pred) {
            operands.insert(reduced.clone());
        }
'''))
E('sc-and-closure',
 (M,'''min_by(sort_prec_pred)''','''min_by(|x, y| sort_prec_pred(x, y))'''))
E('sc-or-finish',
 (M,'''        if operands.len() == 1 {
            return operands.into_iter().next().unwrap();
        }

        SemanticContext::OR(operands.into_iter().collect())''','''        let mut operands: Vec<SemanticContext> = operands.into_iter().collect();
        if operands.len() == 1 {
            operands.remove(0)
        } else {
            SemanticContext::OR(operands)
        }'''))
E('sc-eval-loop',
 (M,'''            SemanticContext::AND(ops) => ops.iter().all(|sem| sem.evaluate(parser, outer_context)),
            SemanticContext::OR(ops) => ops.iter().any(|sem| sem.evaluate(parser, outer_context)),''','''            SemanticContext::AND(ops) => {
                for sem in ops {
                    if !sem.evaluate(parser, outer_context) {
                        return false;
                    }
                }
                true
            }
            SemanticContext::OR(ops) => {
                for sem in ops {
                    if sem.evaluate(parser, outer_context) {
                        return true;
                    }
                }
                false
            }'''))
E('sc-eval-then',
 (M,'''                let _localctx = if *is_ctx_dependent {
                    Some(outer_context)
                } else {
                    None
                };
                parser.sempred(_localctx, *rule_index, *pred_index)''','''                let localctx = Some(outer_context).filter(|_| *is_ctx_dependent);
                parser.sempred(localctx, *rule_index, *pred_index)'''))
E('sc-prec-fold',
 (M,'''                let mut operands = operands.drain(..);
                let result = operands.next().unwrap();
                Some(operands.fold(result, |acc, it| {
                    Owned(SemanticContext::or(Some(acc), Some(it)))
                }))''','''                let mut operands = operands.into_iter();
                let mut result = operands.next().unwrap();
                for it in operands {
                    result = Owned(SemanticContext::or(Some(result), Some(it)));
                }
                Some(result)'''))
E('sc-prec-match',
 (M,'''                    if let Some(evaluated) = evaluated {
                        if *evaluated == Self::NONE {
                            return Some(Owned(Self::NONE));
                        } else {
                            operands.push(evaluated);
                        }
                    }''','''                    match evaluated {
                        Some(e) if *e == Self::NONE => return Some(Owned(Self::NONE)),
                        Some(e) => operands.push(e),
                        None => {}
                    }'''))
E('sc-prec-differs',
 (M,'''                    differs |= evaluated.is_some() && context == evaluated.as_deref().unwrap();

                    if let Some(evaluated) = evaluated {
                        if *evaluated != Self::NONE {''','''                    if let Some(e) = &evaluated {
                        if **e == *context {
                            differs = true;
                        }
                    }

                    if let Some(evaluated) = evaluated {
                        if *evaluated != Self::NONE {'''))
E('sc-prec-and-early',
 (M,'''                    if let Some(evaluated) = evaluated {
                        if *evaluated != Self::NONE {
                            operands.push(evaluated);
                        }
                    } else {
                        return None;
                    }''','''                    let evaluated = match evaluated {
                        Some(x) => x,
                        None => return None,
                    };
                    if *evaluated != Self::NONE {
                        operands.push(evaluated);
                    }'''))
E('sc-or-match',
 (M,'''                let (a, b) = (a.borrow(), b.borrow());
                if *a == Self::NONE || *b == Self::NONE {
                    return Self::NONE;
                }

                Self::new_or(a, b)''','''                let a = a.borrow();
                let b = b.borrow();
                if *a != Self::NONE && *b != Self::NONE {
                    Self::new_or(a, b)
                } else {
                    Self::NONE
                }'''))
E('sc-filter-loop',
 (M,'''    collection.retain(|it| {
        if let SemanticContext::Precedence(_) = it {
            result.push(it.clone());
            false
        } else {
            true
        }
    });''','''    collection.retain(|it| {
        let is_prec = matches!(it, SemanticContext::Precedence(_));
        if is_prec {
            result.push(it.clone());
        }
        !is_prec
    });'''))
# ll1
E('ll-complete-helper',
 (L,'''        if Some(s.get_state_number()) == stop_state.map(|x| x.get_state_number()) {
            match ctx {
                None => {
                    look.add_one(TOKEN_EPSILON);
                    return;
                }
                Some(x) if x.is_empty() && add_eof => {
                    look.add_one(TOKEN_EOF);
                    return;
                }
                _ => {}
            }
        }
''','''        if Some(s.get_state_number()) == stop_state.map(|x| x.get_state_number()) {
            if Self::at_end(&ctx, look, add_eof) {
                return;
            }
        }
'''),
 (L,'''            match ctx {
                None => {
                    look.add_one(TOKEN_EPSILON);
                    return;
                }
                Some(x) if x.is_empty() && add_eof => {
                    look.add_one(TOKEN_EOF);
                    return;
                }
                Some(ctx) if &ctx''','''            if Self::at_end(&ctx, look, add_eof) {
                return;
            }
            match ctx.clone() {
                Some(ctx) if &ctx'''),
 (L,'''    fn look_work(
        &self,''','''    fn at_end(
        ctx: &Option<Arc<PredictionContext>>,
        look: &mut IntervalSet,
        add_eof: bool,
    ) -> bool {
        match ctx {
            None => {
                look.add_one(TOKEN_EPSILON);
                true
            }
            Some(x) if x.is_empty() && add_eof => {
                look.add_one(TOKEN_EOF);
                true
            }
            _ => false,
        }
    }

    fn look_work(
        &self,'''))
E('ll-guard-not',
 (L,'''                    if called_rule_stack.contains(target.get_rule_index()) {
                        continue;
                    }

                    let new_ctx = Arc::new(PredictionContext::new_singleton(
                        ctx.clone(),
                        rule_tr.follow_state as isize,
                    ));

                    called_rule_stack.insert(target.get_rule_index());
                    self.look_work(
                        target,
                        stop_state,
                        Some(new_ctx),
                        look,
                        look_busy,
                        called_rule_stack,
                        see_thru_preds,
                        add_eof,
                    );
                    called_rule_stack.remove(target.get_rule_index());''','''                    let rule = target.get_rule_index();
                    if called_rule_stack.insert(rule) {
                        let new_ctx = Arc::new(PredictionContext::new_singleton(
                            ctx.clone(),
                            rule_tr.follow_state as isize,
                        ));
                        self.look_work(
                            target,
                            stop_state,
                            Some(new_ctx),
                            look,
                            look_busy,
                            called_rule_stack,
                            see_thru_preds,
                            add_eof,
                        );
                        called_rule_stack.remove(rule);
                    }'''))
E('ll-removed',
 (L,'''                    let removed = called_rule_stack.contains(s.get_rule_index());
                    called_rule_stack.remove(s.get_rule_index());
''','''                    let removed = called_rule_stack.remove(s.get_rule_index());
'''))
E('ll-label-match',
 (L,'''                    if let Some(mut set) = tr.get_label() {
                        if tr.get_serialization_type() == TRANSITION_NOTSET {
                            let complement =
                                set.complement(TOKEN_MIN_USER_TOKEN_TYPE, self.atn.max_token_type);
                            *set.to_mut() = complement;
                        }
                        look.add_set(set.deref())
                    }''','''                    if let Some(set) = tr.get_label() {
                        if let TRANSITION_NOTSET = tr.get_serialization_type() {
                            let complement =
                                set.complement(TOKEN_MIN_USER_TOKEN_TYPE, self.atn.max_token_type);
                            look.add_set(&complement);
                        } else {
                            look.add_set(&set);
                        }
                    }'''))
E('ll-wild-helper',
 (L,'''look.add_range(TOKEN_MIN_USER_TOKEN_TYPE, self.atn.max_token_type)''','''self.add_any(look)'''),
 (L,'''    fn look_work(
        &self,''','''    fn add_any(&self, look: &mut IntervalSet) {
        look.add_range(TOKEN_MIN_USER_TOKEN_TYPE, self.atn.max_token_type);
    }

    fn look_work(
        &self,'''))
E('ll-drop-flags',
 (L,'''            &mut called_rule_stack,
            true,
            true,
        );''','''            &mut called_rule_stack,
            true,
        );'''),
 (L,'''        see_thru_preds: bool,
        add_eof: bool,
    ) {''','''        add_eof: bool,
    ) {'''),
 (L,'''                            called_rule_stack,
                            see_thru_preds,
                            add_eof,
                        )
                    }
                    if removed''','''                            called_rule_stack,
                            add_eof,
                        )
                    }
                    if removed'''),
 (L,'''                        called_rule_stack,
                        see_thru_preds,
                        add_eof,
                    );
                    called_rule_stack.remove''','''                        called_rule_stack,
                        add_eof,
                    );
                    called_rule_stack.remove'''),
 (L,'''                    if see_thru_preds {
                        self.look_work(
                            target,
                            stop_state,
                            ctx.clone(),
                            look,
                            look_busy,
                            called_rule_stack,
                            see_thru_preds,
                            add_eof,
                        )
                    } else {
                        look.add_one(TOKEN_INVALID_TYPE)
                    }''','''                    self.look_work(
                        target,
                        stop_state,
                        ctx.clone(),
                        look,
                        look_busy,
                        called_rule_stack,
                        add_eof,
                    )'''),
 (L,'''                    called_rule_stack,
                    see_thru_preds,
                    add_eof,
                ),
                _ =>''','''                    called_rule_stack,
                    add_eof,
                ),
                _ =>'''),
 (L,'TOKEN_EOF, TOKEN_EPSILON, TOKEN_INVALID_TYPE, TOKEN_MIN','TOKEN_EOF, TOKEN_EPSILON, TOKEN_MIN'))
E('ll-look-match',
 (L,'''        let look_ctx = ctx.map(|x| PredictionContext::from_rule_context::<Ctx>(self.atn, x));''','''        let look_ctx = match ctx {
            Some(x) => Some(PredictionContext::from_rule_context::<Ctx>(self.atn, x)),
            None => None,
        };'''))
# atn_config_set
E('cs-merge-helper',
 (C,'''            let merged = PredictionContext::merge(
                existing.get_context().unwrap(),
                config.get_context().unwrap(),
                root_is_wildcard,
                &mut merge_cache,
            );

            existing.set_reaches_into_outer_context(max(
                existing.get_reaches_into_outer_context(),
                config.get_reaches_into_outer_context(),
            ));

            if config.is_precedence_filter_suppressed() {
                existing.set_precedence_filter_suppressed(true)
            }

            existing.set_context(merged);
        } else''','''            merge_into(existing, &config, root_is_wildcard, &mut merge_cache);
        } else'''),
 (C,'''impl Eq for ATNConfigSet {}''','''fn merge_into(
    existing: &mut ATNConfig,
    config: &ATNConfig,
    root_is_wildcard: bool,
    merge_cache: &mut Option<&mut MergeCache>,
) {
    let merged = PredictionContext::merge(
        existing.get_context().unwrap(),
        config.get_context().unwrap(),
        root_is_wildcard,
        merge_cache,
    );
    let depth = max(
        existing.get_reaches_into_outer_context(),
        config.get_reaches_into_outer_context(),
    );
    existing.set_context(merged);
    existing.set_reaches_into_outer_context(depth);
    if config.is_precedence_filter_suppressed() {
        existing.set_precedence_filter_suppressed(true)
    }
}

impl Eq for ATNConfigSet {}'''))
E('cs-flags-helper',
 (C,'''        if *config.semantic_context != SemanticContext::NONE {
            self.has_semantic_context = true
        }

        if config.get_reaches_into_outer_context() > 0 {
            self.dips_into_outer_context = true
        }
''','''        self.note(&config);
'''),
 (C,'''    pub fn add(&mut self, config''','''    fn note(&mut self, config: &ATNConfig) {
        self.has_semantic_context |= *config.semantic_context != SemanticContext::NONE;
        self.dips_into_outer_context |= config.get_reaches_into_outer_context() > 0;
    }

    pub fn add(&mut self, config'''))
E('cs-match',
 (C,'''        if let Some(existing) = self.config_lookup.get(&key) {
            let existing = self.configs.get_mut(*existing).unwrap().as_mut();''','''        if let Some(&existing) = self.config_lookup.get(&key) {
            let existing = &mut *self.configs[existing];'''))
E('cs-match2',
 (C,'''        } else {
            self.config_lookup.insert(key, self.configs.len());
            self.cached_hash = 0;
            self.configs.push(config);
        }
        true
    }''','''            return true;
        }
        let idx = self.configs.len();
        self.cached_hash = 0;
        self.configs.push(config);
        self.config_lookup.insert(key, idx);
        true
    }'''))
E('cs-opt-noguard',
 (C,'''        if self.configs.is_empty() {
            return;
        }

        for config''','''        for config'''))
E('cs-opt-let',
 (C,'''            let mut visited = HashMap::new();
            config.set_context(
                _interpreter
                    .shared_context_cache()
                    .get_shared_context(config.get_context().unwrap(), &mut visited),
            );''','''            let cache = _interpreter.shared_context_cache();
            let mut visited = HashMap::new();
            let shared = cache.get_shared_context(config.get_context().unwrap(), &mut visited);
            config.set_context(shared);'''))
E('cs-alts-loop',
 (C,'''        self.configs.iter().fold(BitSet::new(), |mut acc, c| {
            acc.insert(c.get_alt() as usize);
            acc
        })''','''        let mut alts = BitSet::new();
        for c in self.configs.iter() {
            alts.insert(c.get_alt() as usize);
        }
        alts'''))
E('cs-alts-collect',
 (C,'''        self.configs.iter().fold(BitSet::new(), |mut acc, c| {
            acc.insert(c.get_alt() as usize);
            acc
        })''','''        self.configs.iter().map(|c| c.get_alt() as usize).collect()'''))
E('cs-eq-order',
 (C,'''        self.configs == other.configs
            && self.full_ctx == other.full_ctx
            && self.unique_alt == other.unique_alt
            && self.conflicting_alts == other.conflicting_alts
            && self.has_semantic_context == other.has_semantic_context
            && self.dips_into_outer_context == other.dips_into_outer_context''','''        if self.full_ctx != other.full_ctx || self.unique_alt != other.unique_alt {
            return false;
        }
        self.has_semantic_context == other.has_semantic_context
            && self.dips_into_outer_context == other.dips_into_outer_context
            && self.conflicting_alts == other.conflicting_alts
            && self.configs == other.configs'''))
E('cs-ordered-struct',
 (C,'''        let mut a = ATNConfigSet::new_base_atnconfig_set(true);

        a.hasher = Self::full_hash_key;
        a''','''        ATNConfigSet {
            hasher: Self::full_hash_key,
            ..ATNConfigSet::new_base_atnconfig_set(true)
        }'''))
E('cs-hashfn-flag',
 (C,'''        let hasher = self.hasher;
        let key = hasher(config.as_ref());
''','''        let key = (self.hasher)(&config);
'''))
E('cs-key-iflet',
 (C,'''        match self {
            Key::Full(x) => x.hash(state),
            Key::Partial(hash, _, _, _) => state.write_i32(*hash),
        }''','''        if let Key::Partial(hash, ..) = self {
            state.write_i32(*hash);
        } else if let Key::Full(config) = self {
            config.hash(state);
        }'''))
dump('/tmp/ed/r17.txt')
