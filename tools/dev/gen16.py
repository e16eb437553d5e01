import sys; sys.path.insert(0,'/tmp')
from genlib import *
P='parser_atn_simulator.rs'; PA='parser.rs'
# drop unused params
E('s-noviable-drop-configs',
 (P,'''self.no_viable_alt(
                    local,
                    previousDstate.configs.as_ref(),
                    self.start_index.get(),
                )''','self.no_viable_alt(local, self.start_index.get())'),
 (P,'''self.no_viable_alt(
                            local,
                            Dstate.configs.as_ref(),
                            self.start_index.get(),
                        )''','self.no_viable_alt(local, self.start_index.get())'),
 (P,'self.no_viable_alt(local, &prev, self.start_index.get())','self.no_viable_alt(local, self.start_index.get())'),
 (P,'''        local: &mut Local<'_, 'a, T>,
        _configs: &ATNConfigSet,
        start_index: isize,
    ) -> ANTLRError {''','''        local: &mut Local<'_, 'a, T>,
        start_index: isize,
    ) -> ANTLRError {'''))
E('s-evalpred-drop',
 (P,'''self.eval_predicate(
                    local,
                    &*c.semantic_context,
                    c.get_alt(),
                    configs.full_context(),
                )''','self.eval_predicate(local, &*c.semantic_context)'),
 (P,'''            let full_ctx = false;
            let predicate_evaluation_result =
                self.eval_predicate(local, &pred.pred, pred.alt, full_ctx);
''','''            let predicate_evaluation_result = self.eval_predicate(local, &pred.pred);
'''),
 (P,'''self.eval_predicate(
                    local,
                    pt.get_predicate().unwrap(),
                    config.get_alt(),
                    full_ctx,
                )''','self.eval_predicate(local, pt.get_predicate().unwrap())'),
 (P,'''        pred: impl Borrow<SemanticContext>,
        _alt: isize,
        _full_ctx: bool,
    ) -> bool {
        pred.borrow().evaluate(''','''        pred: impl Borrow<SemanticContext>,
    ) -> bool {
        pred.borrow().evaluate('''))
# evaluate predicate at start helper shared by two transitions
E('s-eval-at-start-helper',
 (P,'''                let curr_pos = local.input().index();
                local.input().seek(self.start_index.get());
                let prec_succeeds = self.eval_predicate(
                    local,
                    pt.get_predicate().unwrap(),
                    config.get_alt(),
                    full_ctx,
                );
                local.input().seek(curr_pos);
                if prec_succeeds {''','''                if self.eval_at_start(local, pt.get_predicate().unwrap(), config.get_alt()) {'''),
 (P,'''    fn precedence_transition<''','''    fn eval_at_start<'a, T: Parser<'a>>(
        &self,
        local: &mut Local<'_, 'a, T>,
        pred: impl Borrow<SemanticContext>,
        alt: isize,
    ) -> bool {
        let curr_pos = local.input().index();
        local.input().seek(self.start_index.get());
        let succeeds = self.eval_predicate(local, pred, alt, true);
        local.input().seek(curr_pos);
        succeeds
    }

    fn precedence_transition<'''))
E('s-pred-common',
 (P,'''        if collect_predicates && (!pt.is_ctx_dependent || (pt.is_ctx_dependent && in_context)) {
            if full_ctx {
                let curr_pos = local.input().index();
                local.input().seek(self.start_index.get());
                let prec_succeeds = self.eval_predicate(
                    local,
                    pt.get_predicate().unwrap(),
                    config.get_alt(),
                    full_ctx,
                );
                local.input().seek(curr_pos);
                if prec_succeeds {
                    return Some(config.cloned(target));
                }
            } else {
                let new_sem_ctx =
                    SemanticContext::and(Some(&*config.semantic_context), pt.get_predicate());
                return Some(config.cloned_with_new_semantic(target, Box::new(new_sem_ctx)));
            }
        } else {
            return Some(config.cloned(target));
        }

        None
    }''','''        let evaluate = collect_predicates && (!pt.is_ctx_dependent || in_context);
        self.apply_predicate(config, pt.get_predicate(), target, evaluate, full_ctx, local)
    }

    fn apply_predicate<'a, T: Parser<'a>>(
        &self,
        config: &ATNConfig,
        pred: Option<impl Borrow<SemanticContext>>,
        target: &dyn ATNState,
        evaluate: bool,
        full_ctx: bool,
        local: &mut Local<'_, 'a, T>,
    ) -> Option<ATNConfig> {
        if !evaluate {
            return Some(config.cloned(target));
        }
        if !full_ctx {
            let sem = SemanticContext::and(Some(&*config.semantic_context), pred);
            return Some(config.cloned_with_new_semantic(target, Box::new(sem)));
        }
        let curr_pos = local.input().index();
        local.input().seek(self.start_index.get());
        let ok = self.eval_predicate(local, pred.unwrap(), config.get_alt(), true);
        local.input().seek(curr_pos);
        if ok {
            Some(config.cloned(target))
        } else {
            None
        }
    }'''),
 (P,'''        if collect_predicates && in_context {
            if full_ctx {
                let curr_pos = local.input().index();
                local.input().seek(self.start_index.get());
                let prec_succeeds = self.eval_predicate(
                    local,
                    pt.get_predicate().unwrap(),
                    config.get_alt(),
                    full_ctx,
                );
                local.input().seek(curr_pos);
                if prec_succeeds {
                    return Some(config.cloned(target));
                }
            } else {
                let new_sem_ctx =
                    SemanticContext::and(Some(&*config.semantic_context), pt.get_predicate());
                return Some(config.cloned_with_new_semantic(target, Box::new(new_sem_ctx)));
            }
        } else {
            return Some(config.cloned(target));
        }

        None
    }''','''        self.apply_predicate(
            config,
            pt.get_predicate(),
            target,
            collect_predicates && in_context,
            full_ctx,
            local,
        )
    }'''))
E('s-compute-start-s0-helper',
 (P,'''            let s0 = s0.unwrap_or_else(|| {
                let s0_closure''','''            let s0 = if let Some(s0) = s0 {
                s0
            } else {
                let s0_closure'''),
 (P,'''                local.downgrade_lock();
                s0
            });
''','''                local.downgrade_lock();
                s0
            };
'''))
E('s-s0-two-blocks',
 (P,'''                let mut s0;
                if local.dfa_mut().is_precedence_dfa() {
                    s0 = local.dfa_mut().s0.unwrap();
                    let s0_closure_updated = self.apply_precedence_filter(&s0_closure, &mut local);
                    local.dfa_mut().states[s0].configs = Box::new(s0_closure);

                    s0 = self.add_dfastate(
                        local.dfa_mut(),
                        DFAState::new_dfastate(0, Box::new(s0_closure_updated)),
                    );

                    local
                        .dfa_mut
                        .as_mut()
                        .unwrap()
                        .set_precedence_start_state(local.precedence, s0);
                } else {
                    s0 = self.add_dfastate(
                        local.dfa_mut(),
                        DFAState::new_dfastate(0, Box::new(s0_closure)),
                    );
                    local.dfa_mut().s0.replace(s0);
                }
''','''                let precedence = local.precedence;
                let s0 = if local.dfa_mut().is_precedence_dfa() {
                    let filtered = self.apply_precedence_filter(&s0_closure, &mut local);
                    let dfa = local.dfa_mut();
                    let outer = dfa.s0.unwrap();
                    dfa.states[outer].configs = Box::new(s0_closure);
                    let s0 = self.add_dfastate(dfa, DFAState::new_dfastate(0, Box::new(filtered)));
                    dfa.set_precedence_start_state(precedence, s0);
                    s0
                } else {
                    let dfa = local.dfa_mut();
                    let s0 = self.add_dfastate(dfa, DFAState::new_dfastate(0, Box::new(s0_closure)));
                    dfa.s0 = Some(s0);
                    s0
                };
'''))
E('s-get-existing-match',
 (P,'''        dfa.states[previousD]
            .edges
            .get((t + 1) as usize)
            .and_then(|x| match *x {
                0 => None,
                x => Some(x),
            })''','''        let edge = dfa.states[previousD].edges.get((t + 1) as usize).copied();
        edge.filter(|x| *x != 0)'''))
E('s-finish-conflict-helper',
 (P,'''        let mut D = DFAState::new_dfastate(0, reach.into());
        let reach = D.configs.as_ref();

        if predicted_alt != INVALID_ALT {
            D.is_accept_state = true;
            D.configs.set_unique_alt(predicted_alt);
            D.prediction = predicted_alt
        } else if self.all_configs_in_rule_stop_state(reach)
            || has_sll_conflict_terminating_prediction(self.prediction_mode.get(), reach)
        {
            let alts = self.get_conflicting_alts(reach);
            D.prediction = alts.iter().next().unwrap() as isize;
            D.configs.conflicting_alts = alts;
            D.requires_full_context = true;
            D.is_accept_state = true;
        }
''','''        let mut D = DFAState::new_dfastate(0, reach.into());
        self.resolve_state(&mut D, predicted_alt);
'''),
 (P,'''    fn predicate_dfa_state(&self,''','''    fn resolve_state(&self, d: &mut DFAState, predicted_alt: isize) {
        if predicted_alt != INVALID_ALT {
            d.is_accept_state = true;
            d.configs.set_unique_alt(predicted_alt);
            d.prediction = predicted_alt;
            return;
        }
        let conflict = {
            let reach = d.configs.as_ref();
            self.all_configs_in_rule_stop_state(reach)
                || has_sll_conflict_terminating_prediction(self.prediction_mode.get(), reach)
        };
        if conflict {
            let alts = self.get_conflicting_alts(&d.configs);
            d.prediction = alts.iter().next().unwrap() as isize;
            d.configs.conflicting_alts = alts;
            d.requires_full_context = true;
            d.is_accept_state = true;
        }
    }

    fn predicate_dfa_state(&self,'''))
E('s-unique-alt-first',
 (P,'''            let alt_sub_sets = get_conflicting_alt_subsets(&prev);
            prev.set_unique_alt(self.get_unique_alt(&prev));
            if prev.get_unique_alt() != INVALID_ALT {
                predicted_alt = prev.get_unique_alt();
                break;
            }
''','''            let unique = self.get_unique_alt(&prev);
            prev.set_unique_alt(unique);
            if unique != INVALID_ALT {
                predicted_alt = unique;
                break;
            }
            let alt_sub_sets = get_conflicting_alt_subsets(&prev);
'''))
E('s-full-ctx-match-let',
 (P,'''            let reach = self.compute_reach_set(&prev, t, full_ctx, local);
            prev = match reach {
                None => {
                    let err = self.no_viable_alt(local, &prev, self.start_index.get());
                    local.input().seek(self.start_index.get());
                    let alt = self
                        .get_syn_valid_or_sem_invalid_alt_that_finished_decision_entry_rule(
                            &prev, local,
                        );
                    if alt != INVALID_ALT {
                        return Ok(alt);
                    }
                    return Err(err);
                }
                Some(x) => x,
            };
''','''            prev = if let Some(x) = self.compute_reach_set(&prev, t, full_ctx, local) {
                x
            } else {
                return self.recover_decision(local, &prev);
            };
'''),
 (P,'''    // ATNConfigSet is pretty big so should be boxed to move it cheaper
''','''    fn recover_decision<'a, T: Parser<'a>>(
        &self,
        local: &mut Local<'_, 'a, T>,
        configs: &ATNConfigSet,
    ) -> Result<isize, ANTLRError> {
        let start = self.start_index.get();
        let err = self.no_viable_alt(local, configs, start);
        local.input().seek(start);
        match self.get_syn_valid_or_sem_invalid_alt_that_finished_decision_entry_rule(configs, local)
        {
            INVALID_ALT => Err(err),
            alt => Ok(alt),
        }
    }

'''))
E('s-error-both-recover',
 (P,'''                let previousDstate = &states[previousD];
                let err = self.no_viable_alt(
                    local,
                    previousDstate.configs.as_ref(),
                    self.start_index.get(),
                );
                local.input().seek(self.start_index.get());
                let alt = self.get_syn_valid_or_sem_invalid_alt_that_finished_decision_entry_rule(
                    previousDstate.configs.as_ref(),
                    local,
                );
                if alt != INVALID_ALT {
                    return Ok(alt);
                }
                return Err(err);
''','''                return self.recover_decision(local, &states[previousD].configs);
'''),
 (P,'''                None => {
                    let err = self.no_viable_alt(local, &prev, self.start_index.get());
                    local.input().seek(self.start_index.get());
                    let alt = self
                        .get_syn_valid_or_sem_invalid_alt_that_finished_decision_entry_rule(
                            &prev, local,
                        );
                    if alt != INVALID_ALT {
                        return Ok(alt);
                    }
                    return Err(err);
                }
''','''                None => return self.recover_decision(local, &prev),
'''),
 (P,'''    // ATNConfigSet is pretty big so should be boxed to move it cheaper
''','''    fn recover_decision<'a, T: Parser<'a>>(
        &self,
        local: &mut Local<'_, 'a, T>,
        configs: &ATNConfigSet,
    ) -> Result<isize, ANTLRError> {
        let start = self.start_index.get();
        let err = self.no_viable_alt(local, configs, start);
        local.input().seek(start);
        match self.get_syn_valid_or_sem_invalid_alt_that_finished_decision_entry_rule(configs, local)
        {
            INVALID_ALT => Err(err),
            alt => Ok(alt),
        }
    }

'''))
E('s-is-stop-helper',
 (P,'''        for c in configs.get_items() {
            if let RuleStopState = self.atn().states[c.get_state()].get_state_type() {
                return true;
            }
        }
        return false;''','''        configs.get_items().any(|c| self.is_stop(c))'''),
 (P,'''        for c in configs.get_items() {
            if let RuleStopState = self.atn().states[c.get_state()].get_state_type() {
            } else {
                return false;
            }
        }
        return true;''','''        configs.get_items().all(|c| self.is_stop(c))'''),
 (P,'''    fn has_config_in_rule_stop_state(''','''    fn is_stop(&self, c: &ATNConfig) -> bool {
        matches!(
            self.atn().states[c.get_state()].get_state_type(),
            RuleStopState
        )
    }

    fn has_config_in_rule_stop_state('''))
E('s-reach-two-vecs',
 (P,'''                self.get_reachable_target(tr.as_ref(), t).map(|target| {
                    let added = Box::new(c.cloned(self.atn().states[target].as_ref()));
                    intermediate.add_cached(added, Some(local.merge_cache))
                });''','''                if !tr.matches(t, 0, self.atn().max_token_type) {
                    continue;
                }
                let target = self.atn().states[tr.get_target()].as_ref();
                intermediate.add_cached(Box::new(c.cloned(target)), Some(local.merge_cache));'''))
E('s-reach-eof-flag',
 (P,'''                let treat_eofas_epsilon = t == TOKEN_EOF;
''',''),
 (P,'''            for c in intermediate.configs {
''','''            let treat_eofas_epsilon = t == TOKEN_EOF;
            for c in intermediate.configs {
'''))
E('s-removeall-if-let',
 (P,'''            if let RuleStopState = state.get_state_type() {
                result.add_cached(c, Some(merge_cache));
                continue;
            }

            if look_to_end_of_rule && state.has_epsilon_only_transitions() {
                let next_tokens = self.atn().next_tokens(state);
                if next_tokens.contains(TOKEN_EPSILON) {
                    let end_of_rule_state = self.atn().rule_to_stop_state[state.get_rule_index()];
                    result.add_cached(
                        c.cloned(self.atn().states[end_of_rule_state].as_ref())
                            .into(),
                        Some(merge_cache),
                    );
                }
            }
''','''            let keep = if let RuleStopState = state.get_state_type() {
                Some(c)
            } else if look_to_end_of_rule
                && state.has_epsilon_only_transitions()
                && self.atn().next_tokens(state).contains(TOKEN_EPSILON)
            {
                let stop = self.atn().rule_to_stop_state[state.get_rule_index()];
                Some(Box::new(c.cloned(self.atn().states[stop].as_ref())))
            } else {
                None
            };
            if let Some(keep) = keep {
                result.add_cached(keep, Some(merge_cache));
            }
'''))
E('s-precfilter-continue',
 (P,'''            if let Some(updated_sem_ctx) = updated_sem_ctx.as_deref() {
                states_from_alt1.insert(config.get_state(), config.get_context());

                if *updated_sem_ctx != *config.semantic_context {
                    config_set.add_cached(
                        Box::new(ATNConfig::new_with_semantic(
                            config.get_state(),
                            config.get_alt(),
                            config.get_context().cloned(),
                            Box::new(updated_sem_ctx.clone()),
                        )),
                        Some(local.merge_cache),
                    );
                } else {
                    config_set.add_cached(Box::new(config.clone()), Some(local.merge_cache));
                }
            }
''','''            let updated = match updated_sem_ctx.as_deref() {
                Some(x) => x,
                None => continue,
            };
            states_from_alt1.insert(config.get_state(), config.get_context());

            let new_config = if *updated == *config.semantic_context {
                config.clone()
            } else {
                ATNConfig::new_with_semantic(
                    config.get_state(),
                    config.get_alt(),
                    config.get_context().cloned(),
                    Box::new(updated.clone()),
                )
            };
            config_set.add_cached(Box::new(new_config), Some(local.merge_cache));
'''))
E('s-precfilter-suppressed-let',
 (P,'''            if !config.is_precedence_filter_suppressed() {
                if let Some(context) = states_from_alt1.get(&config.get_state()) {
                    if *context == config.get_context() {
                        continue;
                    }
                }
            }
            config_set.add(Box::new(config.clone()));''','''            let eliminated = !config.is_precedence_filter_suppressed()
                && states_from_alt1.get(&config.get_state()) == Some(&config.get_context());
            if !eliminated {
                config_set.add(Box::new(config.clone()));
            }'''))
E('s-preds-ambig-unwrapor',
 (P,'''            .map(|it| {
                if let Some(inner) = it {
                    inner
                } else {
                    SemanticContext::NONE
                }
            })
            .collect();

        let npred_alts = alt_to_pred
            .iter()
            .filter(|it| **it != SemanticContext::NONE)
            .count();

        if npred_alts == 0 {
            return None;
        }
        return Some(alt_to_pred);''','''            .map(|it| it.unwrap_or(SemanticContext::NONE))
            .collect();

        if alt_to_pred.iter().all(|it| *it == SemanticContext::NONE) {
            None
        } else {
            Some(alt_to_pred)
        }'''))
E('s-predpred-contains-after',
 (P,'''        let mut pairs = vec![];
        let mut contains_predicate = false;
        for (i, pred) in alt_to_pred.into_iter().enumerate().skip(1) {
            if pred != SemanticContext::NONE {
                contains_predicate = true
            }
''','''        let mut pairs = vec![];
        let contains_predicate = alt_to_pred
            .iter()
            .skip(1)
            .any(|it| *it != SemanticContext::NONE);
        for (i, pred) in alt_to_pred.into_iter().enumerate().skip(1) {
'''))
E('s-split-match',
 (P,'''            let clone = Box::new(c.clone());
            if *c.semantic_context != SemanticContext::NONE {
                let predicate_eval_result = self.eval_predicate(
                    local,
                    &*c.semantic_context,
                    c.get_alt(),
                    configs.full_context(),
                );
                if predicate_eval_result {
                    succeeded.add(clone);
                } else {
                    failed.add(clone);
                }
            } else {
                succeeded.add(clone);
            }''','''            let valid = *c.semantic_context == SemanticContext::NONE
                || self.eval_predicate(
                    local,
                    &*c.semantic_context,
                    c.get_alt(),
                    configs.full_context(),
                );
            let target = if valid { &mut succeeded } else { &mut failed };
            target.add(Box::new(c.clone()));'''))
E('s-synvalid-find',
 (P,'''        let alt = self.get_alt_that_finished_decision_entry_rule(&sem_valid_configs);
        if alt != INVALID_ALT {
            return alt;
        }

        if !sem_invalid_configs.is_empty() {
            let alt = self.get_alt_that_finished_decision_entry_rule(&sem_invalid_configs);
            if alt != INVALID_ALT {
                return alt;
            }
        }

        INVALID_ALT''','''        let alt = self.get_alt_that_finished_decision_entry_rule(&sem_valid_configs);
        if alt != INVALID_ALT || sem_invalid_configs.is_empty() {
            return alt;
        }
        self.get_alt_that_finished_decision_entry_rule(&sem_invalid_configs)'''))
E('s-evalsem-flat',
 (P,'''            if pred.pred == SemanticContext::NONE {
                predictions.insert(pred.alt as usize);

                if !complete {
                    break;
                }
                continue;
            }

            let full_ctx = false;
            let predicate_evaluation_result =
                self.eval_predicate(local, &pred.pred, pred.alt, full_ctx);

            if predicate_evaluation_result {
                predictions.insert(pred.alt as usize);
                if !complete {
                    break;
                }
            }''','''            let holds = pred.pred == SemanticContext::NONE
                || self.eval_predicate(local, &pred.pred, pred.alt, false);
            if holds {
                predictions.insert(pred.alt as usize);
                if !complete {
                    break;
                }
            }'''))
E('s-evalsem-drop-complete',
 (P,'self.eval_semantic_context(local, &Dstate.predicates, true)','self.eval_semantic_context(local, &Dstate.predicates)'),
 (P,'''        pred_predictions: &Vec<PredPrediction>,
        complete: bool,
    ) -> BitSet {''','''        pred_predictions: &[PredPrediction],
    ) -> BitSet {'''),
 (P,'''                predictions.insert(pred.alt as usize);

                if !complete {
                    break;
                }
                continue;''','''                predictions.insert(pred.alt as usize);
                continue;'''),
 (P,'''                predictions.insert(pred.alt as usize);
                if !complete {
                    break;
                }''','''                predictions.insert(pred.alt as usize);'''))
E('s-css-closure-noclosure',
 (P,'''                config.get_context().unwrap().run(|temp| {
                    if temp.get_return_state(temp.length() - 1)
                        == PREDICTION_CONTEXT_EMPTY_RETURN_STATE
                    {''','''                {
                    if config.get_context().unwrap().has_empty_path() {'''),
 (P,'''                                local,
                            )
                        }
                    }
                });
                let context = config.take_context();''','''                                local,
                            )
                        }
                    }
                }
                let context = config.take_context();'''))
E('s-css-loop-break',
 (P,'''                    if context.get_return_state(i) == PREDICTION_CONTEXT_EMPTY_RETURN_STATE {
                        if i != context.length() - 1 {
                            panic!("EMPTY_RETURN_STATE is not last for some reason, please report error")
                        }
                        continue;
                    }
                    let return_state = context.get_return_state(i) as ATNStateRef;
                    //                    let new_ctx = context.take_parent(i).unwrap();
                    let new_ctx = context.get_parent(i).cloned();
                    let mut c = ATNConfig::new_with_semantic(
                        return_state,
                        config.get_alt(),
                        new_ctx,
                        config.semantic_context.clone(),
                    );
                    c.set_reaches_into_outer_context(config.get_reaches_into_outer_context());
''','''                    let return_state = context.get_return_state(i);
                    if return_state == PREDICTION_CONTEXT_EMPTY_RETURN_STATE {
                        if i + 1 != context.length() {
                            panic!("EMPTY_RETURN_STATE is not last for some reason, please report error")
                        }
                        continue;
                    }
                    let mut c = ATNConfig::new_with_semantic(
                        return_state as ATNStateRef,
                        config.get_alt(),
                        context.get_parent(i).cloned(),
                        config.semantic_context.clone(),
                    );
                    c.set_reaches_into_outer_context(config.get_reaches_into_outer_context());
'''))
E('s-cw-stop-helper',
 (P,'''                let mut new_depth = depth;
                if let RuleStopState = self.atn().states[config.get_state()].get_state_type() {''','''                let mut new_depth = depth;
                if p.get_state_type() == &RuleStopState {'''))
E('s-cw-rule-depth',
 (P,'''                    if tr.get_serialization_type() == TransitionType::TRANSITION_RULE {
                        if new_depth >= 0 {
                            new_depth += 1
                        }
                    }''','''                    let enters_rule = tr.get_serialization_type() == TransitionType::TRANSITION_RULE;
                    new_depth += (enters_rule && depth >= 0) as isize;'''))
E('s-cw-letelse',
 (P,'''            if let Some(mut c) = c {
                let mut new_depth = depth;''','''            if c.is_none() {
                continue;
            }
            let mut c = c.unwrap();
            {
                let mut new_depth = depth;'''),
 (P,'''                    new_depth,
                    treat_eofas_epsilon,
                    local,
                )
            };
        }''','''                    new_depth,
                    treat_eofas_epsilon,
                    local,
                );
            }
        }'''))
E('s-drop-loop-all',
 (P,'''        for i in 0..ctx_len {
            let return_state = self.atn().states[pred_ctx.get_return_state(i) as usize].as_ref();
            if return_state.get_rule_index() != state.get_rule_index() {
                return false;
            }
        }
''','''        let same_rule = (0..ctx_len).all(|i| {
            let return_state = self.atn().states[pred_ctx.get_return_state(i) as usize].as_ref();
            return_state.get_rule_index() == state.get_rule_index()
        });
        if !same_rule {
            return false;
        }
'''))
E('s-drop-loop-or',
 (P,'''            if return_state.get_state_number() == block_end_state_num {
                continue;
            }
            if return_state_target.get_state_number() == block_end_state_num {
                continue;
            }
''','''            if return_state.get_state_number() == block_end_state_num
                || return_state_target.get_state_number() == block_end_state_num
            {
                continue;
            }
'''))
E('s-drop-entry-helper',
 (P,'''        if let ATNStateType::DecisionState {
            state: ATNDecisionState::StarLoopEntry { is_precedence, .. },
            ..
        } = state.get_state_type()
        {
            if !*is_precedence
                || _config.get_context().unwrap().is_empty()
                || _config.get_context().unwrap().has_empty_path()
            {
                return false;
            }
        } else {
            return false;
        }

        let pred_ctx = _config.get_context().unwrap();
''','''        let is_precedence_loop = match state.get_state_type() {
            ATNStateType::DecisionState {
                state: ATNDecisionState::StarLoopEntry { is_precedence, .. },
                ..
            } => *is_precedence,
            _ => false,
        };
        if !is_precedence_loop {
            return false;
        }

        let pred_ctx = _config.get_context().unwrap();
        if pred_ctx.is_empty() || pred_ctx.has_empty_path() {
            return false;
        }
'''))
E('s-eps-target-hoist',
 (P,'''        match t.get_serialization_type() {
            TransitionType::TRANSITION_EPSILON => {
                Some(config.cloned(self.atn().states[t.get_target()].as_ref()))
            }''','''        let target = self.atn().states[t.get_target()].as_ref();
        match t.get_serialization_type() {
            TransitionType::TRANSITION_EPSILON => Some(config.cloned(target)),'''),
 (P,'''                if treat_eofas_epsilon && t.matches(TOKEN_EOF, 0, 1) {
                    Some(config.cloned(self.atn().states[t.get_target()].as_ref()))
                } else {''','''                if treat_eofas_epsilon && t.matches(TOKEN_EOF, 0, 1) {
                    Some(config.cloned(target))
                } else {'''))
E('s-eps-rule-inline',
 (P,'''                Some(self.rule_transition(config, t.cast::<RuleTransition>()))
''','''                let rule = t.cast::<RuleTransition>();
                assert!(config.get_context().is_some());
                let new_ctx = PredictionContext::new_singleton(
                    config.get_context().cloned(),
                    rule.follow_state as isize,
                );
                Some(config.cloned_with_new_ctx(
                    self.atn().states[rule.target].as_ref(),
                    Some(new_ctx.into()),
                ))
'''),
 (P,'''    fn rule_transition(&self, config: &ATNConfig, t: &RuleTransition) -> ATNConfig {
        assert!(config.get_context().is_some());
        let new_ctx = PredictionContext::new_singleton(
            config.get_context().cloned(),
            t.follow_state as isize,
        );
        config.cloned_with_new_ctx(self.atn().states[t.target].as_ref(), Some(new_ctx.into()))
    }
''',''))
E('s-conf-or-unique-insert',
 (P,'''            BitSet::new().modify_with(|it| {
                it.insert(configs.get_unique_alt() as usize);
            })''','''            let mut alts = BitSet::new();
            alts.insert(configs.get_unique_alt() as usize);
            alts'''))
E('s-finished-alt-fold',
 (P,'''        let mut alts = IntervalSet::new();
        for c in configs.get_items() {
            let has_empty_path = c.get_context().map(|x| x.has_empty_path()) == Some(true);
            let is_stop = self.atn().states[c.get_state()].get_state_type() == &RuleStopState;
            if c.get_reaches_into_outer_context() > 0 || (is_stop && has_empty_path) {
                alts.add_one(c.get_alt())
            }
        }
''','''        let mut alts = IntervalSet::new();
        for c in configs.get_items() {
            if c.get_reaches_into_outer_context() > 0 {
                alts.add_one(c.get_alt());
                continue;
            }
            let has_empty_path = c.get_context().map_or(false, |x| x.has_empty_path());
            if has_empty_path && self.atn().states[c.get_state()].get_state_type() == &RuleStopState
            {
                alts.add_one(c.get_alt())
            }
        }
'''))
# parser.rs
E('s-consume-listeners-each',
 (PA,'''                for listener in &mut self.parse_listeners {
                    listener.visit_error_node(&*node)
                }''','''                self.parse_listeners
                    .iter_mut()
                    .for_each(|listener| listener.visit_error_node(&*node));'''))
E('s-addchild-helper',
 (PA,'''                self.ctx
                    .as_deref()
                    .unwrap()
                    .add_child(node.clone().coerce_rc_to());''','''                self.append_child(node.clone().coerce_rc_to());'''),
 (PA,'''    fn add_context_to_parse_tree(&mut self) {''','''    fn append_child(&self, child: Rc<Ctx::Type>) {
        self.ctx.as_deref().unwrap().add_child(child);
    }

    fn add_context_to_parse_tree(&mut self) {'''))
E('s-match-missing-helper',
 (PA,'''            if self.build_parse_trees && token.borrow().get_token_index() == -1 {
                self.ctx
                    .as_ref()
                    .unwrap()
                    .add_child(self.create_error_node(token.clone()).coerce_rc_to());
            }''','''            self.add_conjured(&token);'''),
 (PA,'''            if self.build_parse_trees && t.borrow().get_token_index() == -1 {
                self.ctx
                    .as_ref()
                    .unwrap()
                    .add_child(self.create_error_node(t.clone()).coerce_rc_to());
            }''','''            self.add_conjured(&t);'''),
 (PA,'''    fn add_context_to_parse_tree(&mut self) {''','''    fn add_conjured(&self, token: &<I::TF as TokenFactory<'input>>::Tok) {
        if self.build_parse_trees && token.borrow().get_token_index() == -1 {
            let node = self.create_error_node(token.clone());
            self.ctx.as_ref().unwrap().add_child(node.coerce_rc_to());
        }
    }

    fn add_context_to_parse_tree(&mut self) {'''))
E('s-exit-rule-offset',
 (PA,'''        if self.matched_eof {
            self.ctx
                .as_ref()
                .unwrap()
                .set_stop(self.input.lt(1).cloned())
        } else {
            self.ctx
                .as_ref()
                .unwrap()
                .set_stop(self.input.lt(-1).cloned())
        }
        self.trigger''','''        let offset = if self.matched_eof { 1 } else { -1 };
        let stop = self.input.lt(offset).cloned();
        self.ctx.as_ref().unwrap().set_stop(stop);
        self.trigger'''))
E('s-add-ctx-inline',
 (PA,'''        if self.build_parse_trees {
            self.add_context_to_parse_tree()
        }''','''        if self.build_parse_trees {
            let ctx = self.ctx.as_ref().unwrap();
            if let Some(parent) = ctx.get_parent_ctx() {
                parent.add_child(ctx.clone())
            }
        }'''),
 (PA,'''    fn add_context_to_parse_tree(&mut self) {
        let parent = self.ctx.as_ref().unwrap().get_parent_ctx();

        if let Some(parent) = parent {
            parent.add_child(self.ctx.clone().unwrap())
        }
    }
''',''))
E('s-invocation-stack-while',
 (PA,'''        let mut ctx = self.get_parser_rule_context().clone();
        loop {
            let rule_index = ctx.get_rule_index();
            vec.push(rule_names.get(rule_index).unwrap_or(&"n/a").to_string());
            ctx = if let Some(parent) = ctx.get_parent_ctx() {
                parent
            } else {
                break;
            }
        }
        vec''','''        let mut current = Some(self.get_parser_rule_context().clone());
        while let Some(ctx) = current {
            let name = rule_names.get(ctx.get_rule_index()).copied();
            vec.push(name.unwrap_or("n/a").to_owned());
            current = ctx.get_parent_ctx();
        }
        vec'''))
E('s-unroll-ptr-helper',
 (PA,'''            while self.ctx.as_ref().map(|x| Rc::as_ptr(x))
                != parent_ctx.as_ref().map(|x| Rc::as_ptr(x))
            {''','''            let end = parent_ctx.as_ref().map(Rc::as_ptr);
            while self.ctx.as_ref().map(Rc::as_ptr) != end {'''))
E('s-unroll-last-let',
 (PA,'''        if self.build_parse_trees && self.ctx.is_some() {
            self.ctx.as_ref().unwrap().add_child(retctx);
        }''','''        if let (true, Some(ctx)) = (self.build_parse_trees, self.ctx.as_ref()) {
            ctx.add_child(retctx);
        }'''))
E('s-notify-let',
 (PA,'''        let offending_token: Option<&_> = match offending_token {
            None => Some(self.get_current_token().borrow()),
            Some(x) => Some(self.input.get(x).borrow()),
        };''','''        let token = match offending_token {
            None => self.get_current_token(),
            Some(x) => self.input.get(x),
        };
        let offending_token: Option<&_> = Some(token.borrow());'''))
E('s-dumpdfa-skip',
 (PA,'''            if dfa.states.len() > 1 + (dfa.is_precedence_dfa() as usize) {
                if seen_one {
                    println!()
                }
                println!("Decision {}:", dfa.decision);
                print!("{}", dfa.to_string(self.get_vocabulary()));
                seen_one = true;
            }''','''            let hidden = if dfa.is_precedence_dfa() { 2 } else { 1 };
            if dfa.states.len() <= hidden {
                continue;
            }
            if seen_one {
                println!()
            }
            println!("Decision {}:", dfa.decision);
            print!("{}", dfa.to_string(self.get_vocabulary()));
            seen_one = true;'''))
dump('/tmp/ed/r16.txt')
