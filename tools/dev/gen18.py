import sys; sys.path.insert(0,'/tmp')
from genlib import *
EL='error_listener.rs'; ER='errors.rs'; V='vocabulary.rs'; D='dfa.rs'; DS='dfa_serializer.rs'; T='tree.rs'; RC='rule_context.rs'; TK='token.rs'; TF='token_factory.rs'; TR='transition.rs'; TS='trees.rs'; ST='dfa_state.rs'
E('el-proxy-foreach',
 (EL,'''        for listener in self.delegates.deref() {
            listener.syntax_error(_recognizer, offending_symbol, line, column, msg, e)
        }''','''        self.delegates.iter().for_each(|listener| {
            listener.syntax_error(_recognizer, offending_symbol, line, column, msg, e)
        })'''))
E('el-proxy-index',
 (EL,'''        for listener in self.delegates.deref() {
            listener.syntax_error(_recognizer, offending_symbol, line, column, msg, e)
        }''','''        let delegates: &Vec<_> = &self.delegates;
        for i in 0..delegates.len() {
            delegates[i].syntax_error(_recognizer, offending_symbol, line, column, msg, e);
        }'''))
E('el-diag-text-helper',
 (EL,'''        let msg = format!(
            "reportAttemptingFullContext d={}, input='{}'",
            self.get_decision_description(recognizer, dfa),
            recognizer
                .get_input_stream()
                .get_text_from_interval(start_index, stop_index)
        );
        recognizer.notify_error_listeners(msg, None, None);''','''        self.notify("reportAttemptingFullContext", recognizer, dfa, start_index, stop_index);'''),
 (EL,'''        let msg = format!(
            "reportContextSensitivity d={}, input='{}'",
            self.get_decision_description(recognizer, dfa),
            recognizer
                .get_input_stream()
                .get_text_from_interval(start_index, stop_index)
        );
        recognizer.notify_error_listeners(msg, None, None);''','''        self.notify("reportContextSensitivity", recognizer, dfa, start_index, stop_index);'''),
 (EL,'''    fn get_decision_description<''','''    fn notify<'a, T: Parser<'a>>(
        &self,
        kind: &str,
        recognizer: &T,
        dfa: &DFA,
        start_index: isize,
        stop_index: isize,
    ) {
        let msg = format!(
            "{} d={}, input='{}'",
            kind,
            self.get_decision_description(recognizer, dfa),
            recognizer
                .get_input_stream()
                .get_text_from_interval(start_index, stop_index)
        );
        recognizer.notify_error_listeners(msg, None, None);
    }

    fn get_decision_description<'''))
E('el-diag-locals',
 (EL,'''        if self.exact_only && !exact {
            return;
        }

        let msg = format!(
            "reportAmbiguity d={}: ambigAlts={:?}, input='{}'",
            self.get_decision_description(recognizer, dfa),
            ambig_alts,
            recognizer
                .get_input_stream()
                .get_text_from_interval(start_index, stop_index)
        );
        recognizer.notify_error_listeners(msg, None, None);''','''        if exact || !self.exact_only {
            let decision = self.get_decision_description(recognizer, dfa);
            let input = recognizer.get_input_stream();
            let text = input.get_text_from_interval(start_index, stop_index);
            let msg = format!(
                "reportAmbiguity d={}: ambigAlts={:?}, input='{}'",
                decision, ambig_alts, text
            );
            recognizer.notify_error_listeners(msg, None, None);
        }'''))
E('el-desc-match',
 (EL,'''        if let Some(&rule_name) = rule_names.get(rule_index) {
            format!("{} ({})", decision, rule_name)
        } else {
            decision.to_string()
        }''','''        match rule_names.get(rule_index) {
            None => format!("{}", decision),
            Some(rule_name) => format!("{} ({})", decision, rule_name),
        }'''))
E('el-desc-index',
 (EL,'''        if let Some(&rule_name) = rule_names.get(rule_index) {
            format!("{} ({})", decision, rule_name)
        } else {
            decision.to_string()
        }''','''        if rule_index >= rule_names.len() {
            return decision.to_string();
        }
        format!("{} ({})", decision, rule_names[rule_index])'''))
E('el-conf-loop',
 (EL,'''            None => Cow::Owned(
                _configs
                    .configs
                    .iter()
                    .map(|config| config.get_alt() as usize)
                    .collect::<BitSet>(),
            ),''','''            None => {
                let mut found = BitSet::new();
                for config in &_configs.configs {
                    found.insert(config.get_alt() as usize);
                }
                Cow::Owned(found)
            }'''))
E('el-conf-helper',
 (EL,'''            None => Cow::Owned(
                _configs
                    .configs
                    .iter()
                    .map(|config| config.get_alt() as usize)
                    .collect::<BitSet>(),
            ),''','''            None => Cow::Owned(_configs.get_alts()),'''))
E('er-base-new-reuse',
 (ER,'''            base: BaseRecognitionError {
                message: "".to_string(),
                offending_token: recog.get_current_token().borrow().to_owned(),
                offending_state: recog.get_state(),
                states_stack: states_stack(recog.get_parser_rule_context().clone()).collect(),
            },
            start_token:''','''            base: BaseRecognitionError::new(recog),
            start_token:'''))
E('er-base-with-helper',
 (ER,'''    fn new<'a, T: Parser<'a>>(recog: &mut T) -> BaseRecognitionError {
        BaseRecognitionError {
            message: "".to_string(),
            offending_token: recog.get_current_token().borrow().to_owned(),
            offending_state: recog.get_state(),
            states_stack: states_stack(recog.get_parser_rule_context().clone()).collect(),
        }
    }''','''    fn new<'a, T: Parser<'a>>(recog: &mut T) -> BaseRecognitionError {
        let token = recog.get_current_token().borrow().to_owned();
        Self::at(recog, String::new(), token)
    }

    fn at<'a, T: Parser<'a>>(
        recog: &mut T,
        message: String,
        offending_token: OwningToken,
    ) -> BaseRecognitionError {
        BaseRecognitionError {
            message,
            offending_token,
            offending_state: recog.get_state(),
            states_stack: states_stack(recog.get_parser_rule_context().clone()).collect(),
        }
    }'''),
 (ER,'''            base: BaseRecognitionError {
                message: "".to_string(),
                offending_token: recog.get_current_token().borrow().to_owned(),
                offending_state: recog.get_state(),
                states_stack: states_stack(recog.get_parser_rule_context().clone()).collect(),
            },
            start_token:''','''            base: BaseRecognitionError::new(recog),
            start_token:'''))
E('er-tokens-iter',
 (ER,'''self.states_stack.iter().copied()''','''self.states_stack.iter().map(|s| *s)'''))
E('er-offending-match',
 (ER,'''        Some(match self {
            ANTLRError::NoAltError(e) => &e.base.offending_token,
            ANTLRError::InputMismatchError(e) => &e.base.offending_token,
            ANTLRError::PredicateError(e) => &e.base.offending_token,
            _ => return None,
        })''','''        let base = match self {
            ANTLRError::NoAltError(e) => Some(&e.base),
            ANTLRError::InputMismatchError(e) => Some(&e.base),
            ANTLRError::PredicateError(e) => Some(&e.base),
            _ => None,
        };
        base.map(|it| &it.offending_token)'''))
E('er-source-or',
 (ER,'''            ANTLRError::FallThrough(x) => Some(x.as_ref()),
            ANTLRError::OtherError(x) => Some(x.as_ref()),
            _ => None,''','''            ANTLRError::FallThrough(x) | ANTLRError::OtherError(x) => Some(&**x),
            _ => None,'''))
E('er-pred-msg-match',
 (ER,'''                message: msg.unwrap_or_else(|| {
                    format!(
                        "failed predicate: {}",
                        predicate.as_deref().unwrap_or("None")
                    )
                }),''','''                message: match msg {
                    Some(msg) => msg,
                    None => {
                        let shown = match &predicate {
                            Some(p) => p.as_str(),
                            None => "None",
                        };
                        format!("failed predicate: {}", shown)
                    }
                },'''))
E('er-pred-if',
 (ER,'''        let (rule_index, predicate_index) = if tr.get_serialization_type() == TRANSITION_PREDICATE {
            let pr = tr.deref().cast::<PredicateTransition>();
            (pr.rule_index, pr.pred_index)
        } else {
            (0, 0)
        };''','''        let mut rule_index = 0;
        let mut predicate_index = 0;
        if let TRANSITION_PREDICATE = tr.get_serialization_type() {
            let pr = tr.as_ref().cast::<PredicateTransition>();
            rule_index = pr.rule_index;
            predicate_index = pr.pred_index;
        }'''))
E('er-withstate-struct',
 (ER,'''        let mut a = Self::new(recognizer);
        a.base.offending_state = offending_state;
        a.base.states_stack = states_stack(ctx).collect();
        a''','''        let mut base = BaseRecognitionError::new(recognizer);
        base.states_stack = states_stack(ctx).collect();
        base.offending_state = offending_state;
        InputMisMatchError { base }'''))
# dfa
E('d-prec-match',
 (D,'''        self.s0.and_then(|s0| {
            self.states[s0]
                .edges
                .get(_precedence as usize)
                .and_then(|it| match *it {
                    0 => None,
                    x => Some(x),
                })
        })''','''        let s0 = self.s0?;
        match self.states[s0].edges.get(_precedence as usize) {
            Some(&x) if x != 0 => Some(x),
            _ => None,
        }'''))
E('d-prec-filter',
 (D,'''                .and_then(|it| match *it {
                    0 => None,
                    x => Some(x),
                })''','''                .copied()
                .filter(|it| *it != 0)'''))
E('d-setprec-let',
 (D,'''        if let Some(x) = &self.s0 {
            self.states[*x].edges.apply(|edges| {
                if edges.len() <= precedence {
                    edges.resize(precedence + 1, 0);
                }
                edges[precedence] = _start_state;
            });
        }''','''        let s0 = match self.s0 {
            Some(x) => x,
            None => return,
        };
        let edges = &mut self.states[s0].edges;
        if precedence >= edges.len() {
            edges.resize(precedence + 1, 0);
        }
        edges[precedence] = _start_state;'''))
E('d-tostring-iflet',
 (D,'''        if self.s0.is_none() {
            return String::new();
        }
        return format!(
            "{}",
            DFASerializer::new(self, &|x| vocabulary
                .get_display_name(x as isize - 1)
                .into_owned(),)
        );''','''        match self.s0 {
            None => String::new(),
            Some(_) => DFASerializer::new(self, &|x| {
                vocabulary.get_display_name(x as isize - 1).into_owned()
            })
            .to_string(),
        }'''))
E('ds-fmt-guard',
 (DS,'''                if edge != 0 && edge != ERROR_DFA_STATE_REF {
                    let target = &dfa[edge];
                    f.write_fmt(format_args!(
                        "{}-{}->{}\\n",
                        self.get_state_string(source),
                        (self.get_edge_label)(i),
                        self.get_state_string(target)
                    ))?;
                }''','''                if edge == 0 || edge == ERROR_DFA_STATE_REF {
                    continue;
                }
                writeln!(
                    f,
                    "{}-{}->{}",
                    self.get_state_string(source),
                    (self.get_edge_label)(i),
                    self.get_state_string(&dfa[edge])
                )?;'''))
E('ds-fmt-index',
 (DS,'''            for (i, edge) in source.edges.iter().copied().enumerate() {''','''            for i in 0..source.edges.len() {
                let edge = source.edges[i];'''))
E('ds-state-early',
 (DS,'''        if state.is_accept_state {
            base_str = if !state.predicates.is_empty() {
                unimplemented!()
            } else {
                format!("{}=>{}", base_str, state.prediction)
            };
        }
        base_str''','''        if !state.is_accept_state {
            return base_str;
        }
        if !state.predicates.is_empty() {
            unimplemented!()
        }
        base_str = format!("{}=>{}", base_str, state.prediction);
        base_str'''))
E('ds-state-let',
 (DS,'''        let mut base_str = format!(
            "{}s{}{}",
            if state.is_accept_state { ":" } else { "" },
            state.state_number - 1,
            if state.requires_full_context { "^" } else { "" },
        );''','''        let prefix = if state.is_accept_state { ":" } else { "" };
        let suffix = match state.requires_full_context {
            true => "^",
            false => "",
        };
        let number = state.state_number - 1;
        let mut base_str = format!("{}s{}{}", prefix, number, suffix);'''))
# tree
E('t-walk-helper',
 (T,'''        t.enter(listener);
        for child in t.get_children() {
            Self::walk_inner(listener, child.deref())
        }
        t.exit(listener);
    }''','''        t.enter(listener);
        Self::walk_children(listener, t);
        t.exit(listener);
    }

    fn walk_children(listener: &mut T, t: &Node::Type) {
        for child in t.get_children() {
            Self::walk_inner(listener, &*child);
        }
    }'''))
E('t-walk-index',
 (T,'''        for child in t.get_children() {
            Self::walk_inner(listener, child.deref())
        }''','''        let mut children = t.get_children();
        while let Some(child) = children.next() {
            Self::walk_inner(listener, child.deref());
        }'''))
E('t-visitcompat-take',
 (T,'''            if !self.should_visit_next_child(&node, &result) {
                break;
            }
            let child_result = self.visit(&node);
            result = self.aggregate_results(result, child_result);
        }
        return result;''','''            if self.should_visit_next_child(&node, &result) {
                let child_result = self.visit(&node);
                result = self.aggregate_results(result, child_result);
            } else {
                return result;
            }
        }
        result'''))
E('t-leaf-text',
 (T,'''        if self.symbol.borrow().get_token_type() == EOF {
            f.write_str("<EOF>")
        } else {
            let a = self.symbol.borrow().get_text().to_display();
            f.write_str(&a)
        }''','''        let token = self.symbol.borrow();
        match token.get_token_type() {
            EOF => f.write_str("<EOF>"),
            _ => f.write_str(&token.get_text().to_display()),
        }'''))
E('t-result-inline',
 (T,'''        let result = <Self as ParseTreeVisitorCompat>::visit_terminal(self, node);
        *<Self as ParseTreeVisitorCompat>::temp_result(self) = result;''','''        let result = ParseTreeVisitorCompat::visit_terminal(self, node);
        let slot = self.temp_result();
        *slot = result;'''))
E('t-visit-take',
 (T,'''        mem::take(self.temp_result())''','''        let slot = self.temp_result();
        mem::replace(slot, Self::Return::default())'''))
# rule_context
E('rc-stack-match',
 (RC,'''        if ctx.get_invoking_state() < 0 {
            None
        } else {
            let state = ctx.get_invoking_state();
            ctx = ctx.get_parent_ctx().unwrap();
            Some(state)
        }''','''        match ctx.get_invoking_state() {
            state if state >= 0 => {
                let parent = ctx.get_parent_ctx().unwrap();
                ctx = parent;
                Some(state)
            }
            _ => None,
        }'''))
E('rc-nodetext',
 (RC,'''        let rule_index = self.get_rule_index();
        let rule_name = rule_names[rule_index];
        let alt_number = self.get_alt_number();
        if alt_number != INVALID_ALT {
            return format!("{}:{}", rule_name, alt_number);
        }
        return rule_name.to_owned();''','''        let name = rule_names[self.get_rule_index()];
        match self.get_alt_number() {
            INVALID_ALT => name.to_string(),
            alt => format!("{}:{}", name, alt),
        }'''))
E('rc-parent-guard',
 (RC,'''        self.parent_ctx
            .borrow()
            .as_ref()
            .map(Weak::upgrade)
            .flatten()''','''        let guard = self.parent_ctx.borrow();
        match &*guard {
            Some(weak) => weak.upgrade(),
            None => None,
        }'''))
E('rc-setparent',
 (RC,'''        *self.parent_ctx.borrow_mut() = parent.as_ref().map(Rc::downgrade);''','''        let weak = match parent {
            Some(rc) => Some(Rc::downgrade(rc)),
            None => None,
        };
        self.parent_ctx.replace(weak);'''))
# token
E('tk-display-helper',
 (TK,'''        let txt = txt.replace("\\n", "\\\\n");
        let txt = txt.replace("\\r", "\\\\r");
        let txt = txt.replace("\\t", "\\\\t");''','''        let txt = txt
            .replace("\\n", "\\\\n")
            .replace("\\r", "\\\\r")
            .replace("\\t", "\\\\t");'''))
E('tk-display-chan',
 (TK,'''        f.write_fmt(format_args!(
            "[@{},{}:{}='{}',<{}>{},{}:{}]",
            self.get_token_index(),
            self.start,
            self.stop,
            txt,
            self.token_type,
            if self.channel > 0 {
                self.channel.to_string()
            } else {
                String::new()
            },
            self.line,
            self.column
        ))''','''        let channel = match self.channel {
            c if c > 0 => c.to_string(),
            _ => String::new(),
        };
        write!(
            f,
            "[@{},{}:{}='{}',<{}>{},{}:{}]",
            self.get_token_index(),
            self.start,
            self.stop,
            txt,
            self.token_type,
            channel,
            self.line,
            self.column
        )'''))
E('tk-clone-load',
 (TK,'''            token_index: AtomicIsize::new(self.get_token_index()),
            line: self.line,
            column: self.column,
            text: self.text.clone(),''','''            token_index: AtomicIsize::from(self.token_index.load(Ordering::Relaxed)),
            line: self.line,
            column: self.column,
            text: self.text.clone(),'''))
E('tf-text-iflet',
 (TF,'''        let text = match (text, source) {
            (Some(t), _) => Owned(t),

            (None, Some(x)) => {
                if stop >= x.size() || start >= x.size() {
                    Borrowed("<EOF>")
                } else {
                    x.get_text(start, stop).into()
                }
            }
            _ => Borrowed(""),
        };
''','''        let text = if let Some(t) = text {
            Owned(t)
        } else if let Some(x) = source {
            if start < x.size() && stop < x.size() {
                x.get_text(start, stop)
            } else {
                Borrowed("<EOF>")
            }
        } else {
            Borrowed("")
        };
'''))
E('tf-own-size',
 (TF,'''                if stop >= x.size() || start >= x.size() {
                    "<EOF>".to_owned()
                } else {
                    x.get_text(start, stop)
                }''','''                let size = x.size();
                if stop < size && start < size {
                    x.get_text(start, stop)
                } else {
                    String::from("<EOF>")
                }'''))
E('tf-arena-let',
 (TF,'''        self.arena.alloc(*token)''','''        let owned = *token;
        &*self.arena.alloc(owned)'''))
E('tr-range-contains',
 (TR,'''        _symbol >= self.start && _symbol <= self.stop''','''        (self.start..=self.stop).contains(&_symbol)'''))
E('tr-notset',
 (TR,'''        _symbol >= _min_vocab_symbol && _symbol <= _max_vocab_symbol && !self.set.contains(_symbol)''','''        if _symbol < _min_vocab_symbol || _symbol > _max_vocab_symbol {
            return false;
        }
        !self.set.contains(_symbol)'''))
E('tr-wild-contains',
 (TR,'''        _symbol >= _min_vocab_symbol && _symbol <= _max_vocab_symbol
''','''        _min_vocab_symbol <= _symbol && !(_max_vocab_symbol < _symbol)
'''))
E('tr-reach-then',
 (TR,'''        if self.matches(symbol, LEXER_MIN_CHAR_VALUE, LEXER_MAX_CHAR_VALUE) {
            return Some(self.get_target());
        }
        None''','''        match self.matches(symbol, LEXER_MIN_CHAR_VALUE, LEXER_MAX_CHAR_VALUE) {
            true => Some(self.get_target()),
            false => None,
        }'''))
E('tr-reach-bool-then',
 (TR,'''        if self.matches(symbol, LEXER_MIN_CHAR_VALUE, LEXER_MAX_CHAR_VALUE) {
            return Some(self.get_target());
        }
        None''','''        self.matches(symbol, LEXER_MIN_CHAR_VALUE, LEXER_MAX_CHAR_VALUE)
            .then(|| self.get_target())'''))
E('ts-tree-for',
 (TS,'''    result = tree
        .get_children()
        .map(|child| string_tree(child.deref(), rule_names))
        .fold(result, |mut acc, text| {
            acc.push(' ');
            acc.extend(text.chars());
            acc
        });
    result.push(')');
    result''','''    for child in tree.get_children() {
        result.push(' ');
        let text = string_tree(child.deref(), rule_names);
        result.push_str(&text);
    }
    result.push_str(")");
    result'''))
E('st-display',
 (ST,'''f.write_fmt(format_args!("({},{:?})", self.alt, self.pred))''','''write!(f, "({},{:?})", self.alt, self.pred)'''))
dump('/tmp/ed/r18.txt')
