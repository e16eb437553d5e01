import sys; sys.path.insert(0,'/tmp')
from genlib import *
I='input_stream.rs'; V='vocabulary.rs'; C='atn_config.rs'; U='utils.rs'; A='atn.rs'; P='parser_rule_context.rs'; X='lexer_action_executor.rs'
E('i-consume-match',(I,'''        if let Some(index) = self.data_raw.offset(self.index, 1) {
            self.index = index;
        } else {
            panic!("cannot consume EOF");
        }''','''        match self.data_raw.offset(self.index, 1) {
            Some(next) => self.index = next,
            None => panic!("cannot consume EOF"),
        }'''))
E('i-consume-expect',(I,'''        if let Some(index) = self.data_raw.offset(self.index, 1) {
            self.index = index;
        } else {
            panic!("cannot consume EOF");
        }''','''        self.index = self
            .data_raw
            .offset(self.index, 1)
            .expect("cannot consume EOF");'''))
E('i-la-match',(I,'''        if offset == 1 {
            return self
                .data_raw
                .item(self.index)
                .unwrap_or(crate::int_stream::EOF);
        }
        if offset == 0 {
            panic!("should not be called with offset 0");
        }
        if offset < 0 {
            offset += 1; // e.g., translate LA(-1) to use offset i=0; then data[p+0-1]
        }

        self.data_raw
            .offset(self.index, offset - 1)
            .and_then(|index| self.data_raw.item(index))
            .unwrap_or(crate::int_stream::EOF)''','''        let item = match offset {
            1 => self.data_raw.item(self.index),
            0 => panic!("should not be called with offset 0"),
            _ => {
                if offset < 0 {
                    offset += 1;
                }
                match self.data_raw.offset(self.index, offset - 1) {
                    Some(index) => self.data_raw.item(index),
                    None => None,
                }
            }
        };
        item.unwrap_or(crate::int_stream::EOF)'''))
E('i-la-delta',(I,'''        if offset < 0 {
            offset += 1; // e.g., translate LA(-1) to use offset i=0; then data[p+0-1]
        }

        self.data_raw
            .offset(self.index, offset - 1)
            .and_then(|index| self.data_raw.item(index))
            .unwrap_or(crate::int_stream::EOF)''','''        let delta = if offset < 0 { offset } else { offset - 1 };
        match self
            .data_raw
            .offset(self.index, delta)
            .and_then(|index| self.data_raw.item(index))
        {
            Some(c) => c,
            None => crate::int_stream::EOF,
        }'''))
E('i-text-match',(I,'''        let start = start as usize;
        let stop = self.data_raw.offset(stop, 1).unwrap_or(stop) as usize;

        if stop < self.data_raw.len() {
            &self.data_raw[start..stop]
        } else {
            &self.data_raw[start..]
        }
    }

    /// Creates''','''        let stop = match self.data_raw.offset(stop, 1) {
            Some(next) => next,
            None => stop,
        } as usize;
        let data = self.data_raw;
        if stop >= data.len() {
            return &data[start as usize..];
        }
        &data[start as usize..stop]
    }

    /// Creates''')) if 'pub fn new(data_raw' and '/// Creates' in open('/repo/src/'+I).read().split('fn get_text_inner')[1] else None
E('i-owned-early',(I,'''        let start = start as usize;
        let stop = self.data_raw.offset(stop, 1).unwrap_or(stop) as usize;

        if stop < self.data_raw.len() {
            &self.data_raw[start..stop]
        } else {
            &self.data_raw[start..]
        }
        .to_owned()''','''        let start = start as usize;
        let stop = self.data_raw.offset(stop, 1).unwrap_or(stop) as usize;

        if stop < self.data_raw.len() {
            self.data_raw[start..stop].to_owned()
        } else {
            self.data_raw[start..].to_owned()
        }'''))
E('i-owned-min',(I,'''        if stop < self.data_raw.len() {
            &self.data_raw[start..stop]
        } else {
            &self.data_raw[start..]
        }
        .to_owned()''','''        let len = self.data_raw.len();
        let text = if stop >= len {
            &self.data_raw[start..]
        } else {
            &self.data_raw[start..stop]
        };
        text.to_owned()'''))
E('i-new-shared',(I,'''        Self {
            name: "<empty>".to_string(),
            data_raw: data.into(),
            index: 0,
        }''','''        let name = String::from("<empty>");
        InputStream {
            index: 0,
            data_raw: data,
            name,
        }'''))
E('v-collect-for',(V,'''    iter.into_iter()
        .map(|x| x.as_ref().map(|it| it.borrow().to_owned()))
        .collect()''','''    let mut out = Vec::new();
    for x in iter {
        out.push(x.as_ref().map(|it| it.borrow().to_owned()));
    }
    out'''))
E('v-collect-match',(V,'''        .map(|x| x.as_ref().map(|it| it.borrow().to_owned()))''','''        .map(|x| match x {
            Some(it) => Some(it.borrow().to_string()),
            None => None,
        })'''))
E('v-new-direct',(V,'''        VocabularyImpl {
            literal_names: collect_to_string(literal_names),
            symbolic_names: collect_to_string(symbolic_names),
            display_names: collect_to_string(display_names.into_iter().flatten()),
            max_token_type: 0,
        }
        .modify_with(|it| {
            it.max_token_type = max(
                it.literal_names.len(),
                max(it.symbolic_names.len(), it.display_names.len()),
            ) as isize
                - 1
        })''','''        let literal_names = collect_to_string(literal_names);
        let symbolic_names = collect_to_string(symbolic_names);
        let display_names = collect_to_string(display_names.into_iter().flatten());
        let longest = max(
            literal_names.len(),
            max(symbolic_names.len(), display_names.len()),
        );
        VocabularyImpl {
            literal_names,
            symbolic_names,
            display_names,
            max_token_type: longest as isize - 1,
        }'''))
E('v-lit-match',(V,'''        self.literal_names
            .get(token_type as usize)
            .and_then(|x| x.as_deref())''','''        match self.literal_names.get(token_type as usize) {
            Some(Some(name)) => Some(name.as_str()),
            _ => None,
        }'''))
E('v-sym-match',(V,'''        if token_type == TOKEN_EOF {
            return Some("EOF");
        }
        self.symbolic_names
            .get(token_type as usize)
            .and_then(|x| x.as_deref())''','''        match token_type {
            TOKEN_EOF => Some("EOF"),
            _ => self
                .symbolic_names
                .get(token_type as usize)
                .and_then(|x| x.as_deref()),
        }'''))
E('v-sym-helper',(V,'''        self.symbolic_names
            .get(token_type as usize)
            .and_then(|x| x.as_deref())
    }''','''        name_at(&self.symbolic_names, token_type)
    }'''),(V,'''        self.literal_names
            .get(token_type as usize)
            .and_then(|x| x.as_deref())
    }''','''        name_at(&self.literal_names, token_type)
    }'''),(V,'''pub(crate) static DUMMY_VOCAB''','''fn name_at(names: &[Option<String>], token_type: isize) -> Option<&str> {
    names.get(token_type as usize).and_then(|x| x.as_deref())
}

pub(crate) static DUMMY_VOCAB'''))
E('v-display-iflet',(V,'''        self.display_names
            .get(token_type as usize)
            .and_then(|x| x.as_deref())
            .or_else(|| self.get_literal_name(token_type))
            .or_else(|| self.get_symbolic_name(token_type))
            .map(|x| Borrowed(x))
            .unwrap_or(Owned(token_type.to_string()))''','''        if let Some(Some(name)) = self.display_names.get(token_type as usize) {
            return Borrowed(name);
        }
        if let Some(name) = self.get_literal_name(token_type) {
            return Borrowed(name);
        }
        if let Some(name) = self.get_symbolic_name(token_type) {
            return Borrowed(name);
        }
        Owned(token_type.to_string())'''))
E('v-display-else',(V,'''            .map(|x| Borrowed(x))
            .unwrap_or(Owned(token_type.to_string()))''','''            .map(Borrowed)
            .unwrap_or_else(|| Owned(token_type.to_string()))'''))
E('v-tok-if',(V,'''            match tn {
                Some(tn) if !tn.is_empty() && tn.chars().next().unwrap() == '\\'' => {
                    symbolic_names[i] = None;
                    continue;
                }
                Some(tn) if !tn.is_empty() && tn.chars().next().unwrap().is_uppercase() => {
                    literal_names[i] = None;
                    continue;
                }
                None => {
                    continue;
                }
                _ => {}
            }
            literal_names[i] = None;
            symbolic_names[i] = None;''','''            let tn = match tn {
                Some(tn) => tn,
                None => continue,
            };
            if !tn.is_empty() {
                let first = tn.chars().next().unwrap();
                if first == '\\'' {
                    symbolic_names[i] = None;
                    continue;
                }
                if first.is_uppercase() {
                    literal_names[i] = None;
                    continue;
                }
            }
            literal_names[i] = None;
            symbolic_names[i] = None;'''))
E('v-tok-firstmatch',(V,'''            match tn {
                Some(tn) if !tn.is_empty() && tn.chars().next().unwrap() == '\\'' => {
                    symbolic_names[i] = None;
                    continue;
                }
                Some(tn) if !tn.is_empty() && tn.chars().next().unwrap().is_uppercase() => {
                    literal_names[i] = None;
                    continue;
                }
                None => {
                    continue;
                }
                _ => {}
            }
            literal_names[i] = None;
            symbolic_names[i] = None;''','''            match tn {
                Some(tn) if !tn.is_empty() && tn.chars().next().unwrap() == '\\'' => {
                    symbolic_names[i] = None;
                }
                Some(tn) if !tn.is_empty() && tn.chars().next().unwrap().is_uppercase() => {
                    literal_names[i] = None;
                }
                None => {}
                Some(_) => {
                    literal_names[i] = None;
                    symbolic_names[i] = None;
                }
            }'''))
E('c-eq-order',(C,'''        self.get_state() == other.get_state()
            && self.get_alt() == other.get_alt()
            && self.context == other.context
            && self.get_type() == other.get_type()
            && self.semantic_context == other.semantic_context
            && self.precedence_filter_suppressed == other.precedence_filter_suppressed''','''        if self.state != other.state || self.alt != other.alt {
            return false;
        }
        self.precedence_filter_suppressed == other.precedence_filter_suppressed
            && self.context == other.context
            && self.config_type == other.config_type
            && self.semantic_context == other.semantic_context'''))
E('c-hash-match',(C,'''        if let LexerATNConfig {
            lexer_action_executor,
            passed_through_non_greedy_decision,
        } = &self.config_type
        {
            state.write_i32(if *passed_through_non_greedy_decision {
                1
            } else {
                0
            });
            match lexer_action_executor {
                None => state.write_i32(0),
                Some(ex) => ex.hash(state),
            }
        }''','''        match &self.config_type {
            LexerATNConfig {
                lexer_action_executor,
                passed_through_non_greedy_decision,
            } => {
                state.write_i32(*passed_through_non_greedy_decision as i32);
                if let Some(ex) = lexer_action_executor {
                    ex.hash(state);
                } else {
                    state.write_i32(0);
                }
            }
            ATNConfigType::BaseATNConfig => {}
        }'''))
E('c-debug-write',(C,'''        f.write_fmt(format_args!(
            "({},{},[{}]",
            self.state,
            self.alt,
            self.context.as_deref().unwrap()
        ))?;
        if self.reaches_into_outer_context > 0 {
            f.write_fmt(format_args!(",up={}", self.reaches_into_outer_context))?;
        }

        f.write_str(")")''','''        let context = self.context.as_deref().unwrap();
        write!(f, "({},{},[{}]", self.state, self.alt, context)?;
        if self.reaches_into_outer_context > 0 {
            write!(f, ",up={}", self.reaches_into_outer_context)?;
        }
        write!(f, ")")'''))
E('c-exec-iflet',(C,'''        match &self.config_type {
            ATNConfigType::BaseATNConfig => None,
            ATNConfigType::LexerATNConfig {
                lexer_action_executor,
                ..
            } => lexer_action_executor.as_deref(),
        }''','''        if let ATNConfigType::LexerATNConfig {
            lexer_action_executor: Some(exec),
            ..
        } = &self.config_type
        {
            return Some(exec);
        }
        None'''))
E('c-defhash',(C,'''        MurmurHasher::default().convert_with(|mut x| {
            self.hash(&mut x);
            x.finish()
        })''','''        let mut hasher = MurmurHasher::default();
        self.hash(&mut hasher);
        hasher.finish()'''))
E('c-newsem-struct',(C,'''        let mut new = Self::new(state, alt, context);
        new.semantic_context = semantic_context;
        new''','''        ATNConfig {
            semantic_context,
            ..Self::new(state, alt, context)
        }'''))
E('c-lexer6-struct',(C,'''        let mut atnconfig = ATNConfig::new(_state, _alt, Some(_context));
        atnconfig.config_type = ATNConfigType::LexerATNConfig {
            lexer_action_executor: None,
            passed_through_non_greedy_decision: false,
        };
        atnconfig''','''        ATNConfig {
            config_type: ATNConfigType::LexerATNConfig {
                lexer_action_executor: None,
                passed_through_non_greedy_decision: false,
            },
            ..ATNConfig::new(_state, _alt, Some(_context))
        }'''))
E('c-cloned-match',(C,'''        let mut new = self.clone();
        new.state = target.get_state_number();
        if let ATNConfigType::LexerATNConfig {
            passed_through_non_greedy_decision,
            ..
        } = &mut new.config_type
        {
            *passed_through_non_greedy_decision = check_non_greedy_decision(self, target);
        }
        new''','''        let mut new = self.clone();
        match &mut new.config_type {
            ATNConfigType::LexerATNConfig {
                passed_through_non_greedy_decision: passed,
                ..
            } => *passed = check_non_greedy_decision(self, target),
            ATNConfigType::BaseATNConfig => {}
        }
        new.state = target.get_state_number();
        new'''))
E('c-cloned-struct',(C,'''        let mut new = self.cloned(target);
        new.context = ctx;

        new''','''        ATNConfig {
            context: ctx,
            ..self.cloned(target)
        }'''))
E('c-setpfs',(C,'''        let mut new = self.cloned(target);
        new.semantic_context = ctx;
        new''','''        let base = self.cloned(target);
        ATNConfig {
            semantic_context: ctx,
            ..base
        }'''))
E('c-exec-match',(C,'''        let mut new = self.cloned(target);
        if let ATNConfigType::LexerATNConfig {
            lexer_action_executor,
            passed_through_non_greedy_decision: _,
        } = &mut new.config_type
        {
            *lexer_action_executor = exec.map(Box::new);
        }
        new''','''        let exec = exec.map(|e| Box::new(e));
        let mut new = self.cloned(target);
        match new.config_type {
            ATNConfigType::LexerATNConfig {
                ref mut lexer_action_executor,
                ..
            } => *lexer_action_executor = exec,
            ATNConfigType::BaseATNConfig => {}
        }
        new'''))
E('c-ng-or',(C,'''    if let LexerATNConfig {
        passed_through_non_greedy_decision: true,
        ..
    } = source.get_type()
    {
        return true;
    }
    if let ATNStateType::DecisionState {
        nongreedy: true, ..
    } = target.get_state_type()
    {
        return true;
    }
    false''','''    let passed = matches!(
        source.get_type(),
        LexerATNConfig {
            passed_through_non_greedy_decision: true,
            ..
        }
    );
    passed
        || matches!(
            target.get_state_type(),
            ATNStateType::DecisionState {
                nongreedy: true,
                ..
            }
        )'''))
E('c-ng-match',(C,'''    if let LexerATNConfig {
        passed_through_non_greedy_decision: true,
        ..
    } = source.get_type()
    {
        return true;
    }
    if let ATNStateType::DecisionState {
        nongreedy: true, ..
    } = target.get_state_type()
    {
        return true;
    }
    false''','''    if let LexerATNConfig {
        passed_through_non_greedy_decision: true,
        ..
    } = source.get_type()
    {
        return true;
    }
    match target.get_state_type() {
        ATNStateType::DecisionState { nongreedy, .. } => *nongreedy,
        _ => false,
    }'''))
E('u-escape-for',(U,'''    data.chars().for_each(|ch| match ch {
        ' ' if escape_spaces => res.extend("\\u{00B7}".chars()),
        '\\t' => res.extend("\\\\t".chars()),
        '\\n' => res.extend("\\\\n".chars()),
        '\\r' => res.extend("\\\\r".chars()),
        _ => res.push(ch),
    });''','''    for ch in data.chars() {
        match ch {
            ' ' if escape_spaces => res.push_str("\\u{00B7}"),
            '\\t' => res.push_str("\\\\t"),
            '\\n' => res.push_str("\\\\n"),
            '\\r' => res.push_str("\\\\r"),
            other => res.push(other),
        }
    }'''))
E('u-escape-order',(U,'''    data.chars().for_each(|ch| match ch {
        ' ' if escape_spaces => res.extend("\\u{00B7}".chars()),
        '\\t' => res.extend("\\\\t".chars()),
        '\\n' => res.extend("\\\\n".chars()),
        '\\r' => res.extend("\\\\r".chars()),
        _ => res.push(ch),
    });''','''    for ch in data.chars() {
        if ch == '\\t' {
            res += "\\\\t";
        } else if ch == '\\n' {
            res += "\\\\n";
        } else if ch == '\\r' {
            res += "\\\\r";
        } else if ch == ' ' && escape_spaces {
            res += "\\u{00B7}";
        } else {
            res.push(ch);
        }
    }'''))
E('u-cell',(U,'''    let old = cell.get();
    let new = f(old);
    cell.set(new);
    new''','''    cell.set(f(cell.get()));
    cell.get()'''))
E('u-cell2',(U,'''    let old = cell.get();
    let new = f(old);
    cell.set(new);
    new''','''    let new = f(cell.get());
    cell.replace(new);
    new'''))
E('a-next-let',(A,'''        let analyzer = LL1Analyzer::new(self);
        analyzer.look::<Ctx>(s, None, _ctx)''','''        LL1Analyzer::new(self).look::<Ctx>(s, None, _ctx)'''))
E('a-next-modify',(A,'''            self.next_tokens_in_ctx::<EmptyContextType<'_, CommonTokenFactory>>(s, None)
                .modify_with(|r| r.read_only = true)''','''            let mut tokens =
                self.next_tokens_in_ctx::<EmptyContextType<'_, CommonTokenFactory>>(s, None);
            tokens.read_only = true;
            tokens'''))
E('a-exp-helper',(A,'''            following = self.next_tokens(self.states[tr.follow_state].as_ref());
            expected.add_set(following);
            expected.remove_one(TOKEN_EPSILON);''','''            following = self.next_tokens(self.states[tr.follow_state].as_ref());
            Self::add_following(&mut expected, following);'''),(A,'''        expected.add_set(&following);
        expected.remove_one(TOKEN_EPSILON);''','''        Self::add_following(&mut expected, following);'''),(A,'''    pub fn get_decision_state(''','''    fn add_following(expected: &mut IntervalSet, following: &IntervalSet) {
        expected.add_set(following);
        expected.remove_one(TOKEN_EPSILON);
    }

    #[doc(hidden)]
    pub fn get_decision_state('''))
E('a-exp-inline',(A,'''            let invoking_state = self.states[state as usize].as_ref();
            let tr = invoking_state.get_transitions().first().unwrap().as_ref();
            let tr = tr.cast::<RuleTransition>();
            following = self.next_tokens(self.states[tr.follow_state].as_ref());''','''            let follow_state = self.states[state as usize].get_transitions()[0]
                .cast::<RuleTransition>()
                .follow_state;
            following = self.next_tokens(self.states[follow_state].as_ref());'''))
E('a-exp-if',(A,'''        for state in states_stack {
            if !following.contains(TOKEN_EPSILON) {
                break;
            }
''','''        let mut states_stack = states_stack;
        while let Some(state) = states_stack.next() {
            if !following.contains(TOKEN_EPSILON) {
                break;
            }
'''))
E('p-str-isnone',(P,'''            if stop.is_some() && (stop.is_none() || Rc::ptr_eq(p, stop.as_ref().unwrap())) {
                break;
            }''','''            if let Some(stop) = &stop {
                if Rc::ptr_eq(p, stop) {
                    break;
                }
            }'''))
E('p-str-match',(P,'''            if let Some(rule_names) = rule_names {
                let rule_index = p.get_rule_index();
                let rule_name = rule_names
                    .get(rule_index)
                    .map(|&it| it.to_owned())
                    .unwrap_or_else(|| rule_index.to_string());
                result.extend(rule_name.chars());
                result.push(' ');
            } else {
                if !p.is_empty() {
                    result.extend(p.get_invoking_state().to_string().chars());
                    result.push(' ');
                }
            }''','''            match rule_names {
                Some(names) => {
                    let index = p.get_rule_index();
                    match names.get(index) {
                        Some(name) => result.push_str(name),
                        None => result.push_str(&index.to_string()),
                    }
                    result.push(' ');
                }
                None if !p.is_empty() => {
                    result.push_str(&p.get_invoking_state().to_string());
                    result.push(' ');
                }
                None => {}
            }'''))
E('p-str-ends',(P,'''        if result.chars().last() == Some(' ') {
            result.pop();
        }

        result.push(']');
        return result;''','''        if result.ends_with(' ') {
            result.pop();
        }
        result.push(']');
        result'''))
E('p-str-loop',(P,'''        while let Some(ref p) = next {
            if stop.is_some() &&''','''        loop {
            let p = match &next {
                Some(p) => p,
                None => break,
            };
            if stop.is_some() &&'''))
E('p-setstart-match',(P,'''        *self.start.borrow_mut() = t.unwrap_or(Ctx::TF::create_invalid().clone());''','''        let token = match t {
            Some(token) => token,
            None => Ctx::TF::create_invalid(),
        };
        *self.start.borrow_mut() = token;'''))
E('p-setstop-else',(P,'''        *self.stop.borrow_mut() = t.unwrap_or(Ctx::TF::create_invalid().clone());''','''        let token = t.unwrap_or_else(|| Ctx::TF::create_invalid());
        self.stop.replace(token);'''))
E('p-getchild-match',(P,'''        self.children.borrow().get(i).cloned()''','''        let children = self.children.borrow();
        match children.get(i) {
            Some(child) => Some(child.clone()),
            None => None,
        }'''))
E('p-getchild-guard',(P,'''        self.children.borrow().get(i).cloned()''','''        let children = self.children.borrow();
        if i < children.len() {
            Some(Rc::clone(&children[i]))
        } else {
            None
        }'''))
E('p-hasparent',(P,'''        self.base.parent_ctx.borrow().is_some()''','''        !self.base.parent_ctx.borrow().is_none()'''))
E('p-accept-for',(P,'''        self.get_children()
            .for_each(|child| child.accept_dyn(visitor))''','''        for child in self.get_children() {
            child.accept_dyn(visitor);
        }'''))
E('x-new-for',(X,'''        let cached_hash = lexer_actions
            .iter()
            .fold(MurmurHasher::default(), |mut acc, x| {
                x.hash(&mut acc);
                acc
            })
            .finish();''','''        let mut hasher = MurmurHasher::default();
        for action in &lexer_actions {
            action.hash(&mut hasher);
        }
        let cached_hash = hasher.finish();'''))
E('x-append-match',(X,'''        let mut new = old
            .cloned()
            .unwrap_or_else(|| LexerActionExecutor::new(Vec::new()));''','''        let mut new = match old {
            Some(old) => old.clone(),
            None => LexerActionExecutor::new(vec![]),
        };'''))
E('x-fix-if',(X,'''            match action {
                LexerAction::LexerIndexedCustomAction { .. } => {}
                _ => {
                    if action.is_position_dependent() {
                        *action = LexerIndexedCustomAction {
                            offset,
                            action: Box::new(action.clone()),
                        };
                    }
                }
            }''','''            if let LexerAction::LexerIndexedCustomAction { .. } = action {
                continue;
            }
            if !action.is_position_dependent() {
                continue;
            }
            let inner = Box::new(action.clone());
            *action = LexerIndexedCustomAction {
                offset,
                action: inner,
            };'''))
E('x-fix-foreach',(X,'''        for action in self.lexer_actions.iter_mut() {
            match action {
                LexerAction::LexerIndexedCustomAction { .. } => {}
                _ => {
                    if action.is_position_dependent() {
                        *action = LexerIndexedCustomAction {
                            offset,
                            action: Box::new(action.clone()),
                        };
                    }
                }
            }
        }''','''        self.lexer_actions.iter_mut().for_each(|action| {
            let indexed = matches!(action, LexerAction::LexerIndexedCustomAction { .. });
            if !indexed && action.is_position_dependent() {
                *action = LexerIndexedCustomAction {
                    offset,
                    action: Box::new(action.clone()),
                };
            }
        });'''))
E('x-exec-match',(X,'''            if let LexerAction::LexerIndexedCustomAction { offset, .. } = action {
                lexer.input().seek(start_index + offset);
                requires_seek = start_index + offset != stop_index;
            } else if action.is_position_dependent() {
                lexer.input().seek(stop_index);
                requires_seek = false
            }
            action.execute(lexer);''','''            match action {
                LexerAction::LexerIndexedCustomAction { offset, .. } => {
                    let target = start_index + offset;
                    lexer.input().seek(target);
                    requires_seek = target != stop_index;
                }
                _ if action.is_position_dependent() => {
                    lexer.input().seek(stop_index);
                    requires_seek = false;
                }
                _ => {}
            }
            action.execute(lexer);'''))
E('x-exec-index',(X,'''        for action in self.lexer_actions.iter() {
            if let''','''        for i in 0..self.lexer_actions.len() {
            let action = &self.lexer_actions[i];
            if let'''))
dump('/tmp/ed/r20.txt')
