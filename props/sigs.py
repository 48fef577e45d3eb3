# documented default of every optional parameter (written once by tools/gen_sigs.py)
SIGS = {
    'Actuarial': {
        'isclose': {'target': 0.0, 'abs_tol': 1e-06},
        'max_term': {'u': 0},
        'solve': {'mad': False},
    },
    'Annuity': {
        'Y_from_prob': {'discrete': True},
        'Y_from_t': {'discrete': True},
        'Y_t': {'discrete': True},
        'Y_x': {'s': 0, 't': 1.0, 'discrete': True},
        'a_x': {'s': 0, 't': -999, 'u': 0, 'discrete': True},
        'annuity_twin': {'discrete': True},
        'annuity_variance': {'b': 1.0, 'discrete': True},
        'certain_life_annuity': {'s': 0, 'u': 0, 't': -999, 'b': 1, 'discrete': True},
        'decreasing_annuity': {'s': 0, 't': 0, 'b': 1, 'discrete': True},
        'deferred_annuity': {'s': 0, 'u': 0, 't': -999, 'b': 1, 'discrete': True},
        'immediate_annuity': {'s': 0, 't': -999, 'b': 1, 'variance': False},
        'increasing_annuity': {'s': 0, 't': -999, 'b': 1, 'discrete': True},
        'insurance_twin': {'moment': 1, 'discrete': True},
        'temporary_annuity': {'s': 0, 't': -999, 'b': 1, 'variance': False, 'discrete': True},
        'whole_life_annuity': {'s': 0, 'b': 1, 'variance': False, 'discrete': True},
    },
    'Beta': {
        '__init__': {'radix': 100000},
        'e_r': {'s': 0, 't': -999},
        'e_x': {'s': 0, 't': -999, 'curtate': False, 'moment': 1},
    },
    'ConstantForce': {
        'E_x': {'s': 0, 't': -999, 'endowment': 1, 'moment': 1},
        'Y_t': {'discrete': True},
        'Z_t': {'discrete': True},
        'e_x': {'s': 0, 't': -999, 'curtate': False, 'moment': 1},
        'temporary_annuity': {'s': 0, 't': -999, 'b': 1, 'variance': False, 'discrete': True},
        'term_insurance': {'s': 0, 't': 1, 'b': 1, 'moment': 1, 'discrete': True},
        'whole_life_annuity': {'s': 0, 'b': 1, 'variance': False, 'discrete': True},
        'whole_life_insurance': {'s': 0, 'moment': 1, 'b': 1, 'discrete': True},
    },
    'Contract': {
        '__init__': {'premium': 1, 'initial_policy': 0, 'initial_premium': 0, 'renewal_policy': 0, 'renewal_premium': 0, 'settlement_policy': 0, 'benefit': 1, 'endowment': 0, 'T': -999, 'discrete': True},
        'renewals': {'t': 0},
    },
    'ExtraRisk': {
        '__init__': {'risk': '', 'extra': 0.0},
        'p_x': {'s': 0},
        'q_x': {'s': 0},
    },
    'Fractional': {
        'E_r': {'s': 0, 'r': 0.0, 't': 1.0},
        '__init__': {'udd': True},
        'e_approximate': {'e_complete': None, 'e_curtate': None, 'variance': False},
        'e_r': {'s': 0, 't': -999},
        'f_r': {'s': 0, 'r': 0.0, 't': 0.0},
        'l_r': {'s': 0, 'r': 0.0},
        'mu_r': {'s': 0, 'r': 0.0},
        'p_r': {'s': 0, 'r': 0.0, 't': 1.0},
        'q_r': {'s': 0, 'r': 0.0, 't': 1.0, 'u': 0.0},
    },
    'Insurance': {
        'A_x': {'s': 0, 't': -999, 'u': 0, 'endowment': 0.0, 'moment': 1, 'discrete': True},
        'E_x': {'s': 0, 't': 1, 'endowment': 1, 'moment': 1},
        'Z_from_prob': {'discrete': True},
        'Z_from_t': {'discrete': True},
        'Z_t': {'discrete': True},
        'Z_x': {'s': 0, 't': 0.0, 'discrete': True},
        'decreasing_insurance': {'s': 0, 't': 1, 'b': 1, 'discrete': True},
        'deferred_insurance': {'s': 0, 'u': 0, 't': -999, 'b': 1, 'moment': 1, 'discrete': True},
        'endowment_insurance': {'s': 0, 't': 1, 'b': 1, 'moment': 1, 'discrete': True},
        'increasing_insurance': {'s': 0, 't': -999, 'b': 1, 'discrete': True},
        'insurance_variance': {'b': 1},
        'term_insurance': {'s': 0, 't': 1, 'b': 1, 'moment': 1, 'discrete': True},
        'whole_life_insurance': {'s': 0, 'moment': 1, 'b': 1, 'discrete': True},
    },
    'Interest': {
        '__init__': {'m': 0, 'v_t': None},
        'annuity': {'m': 1, 'due': True},
        'mthly': {'m': 0},
    },
    'Life': {
        'bernoulli': {'a': 1, 'b': 0, 'variance': False},
        'binomial': {'variance': False},
        'conditional_variance': {'N': 1},
        'mixture': {'N': 1, 'variance': False},
        'portfolio_cdf': {'N': 1},
        'portfolio_percentile': {'N': 1},
    },
    'LifeTable': {
        'E_x': {'s': 0, 't': 1, 'moment': 1, 'endowment': 1.0},
        '__init__': {'udd': True, 'verbose': False},
        'd_x': {'s': 0, 't': 1},
        'e_x': {'s': 0, 't': -999, 'curtate': True, 'moment': 1},
        'l_x': {'s': 0},
        'mu_x': {'s': 0, 't': 0},
        'p_x': {'s': 0, 't': 1},
        'q_x': {'s': 0, 't': 1, 'u': 0},
        'set_table': {'radix': 100000, 'fill': True, 'l': None, 'd': None, 'p': None, 'q': None},
    },
    'Lifetime': {
        'e_x': {'s': 0, 't': -999, 'curtate': True, 'moment': 1},
    },
    'MortalityLaws': {
        'e_r': {'s': 0, 'r': 0.0, 't': -999},
        'f_r': {'s': 0, 'r': 0.0, 't': 0.0},
        'l_r': {'s': 0, 'r': 0.0},
        'mu_r': {'s': 0, 'r': 0.0},
        'p_r': {'s': 0, 'r': 0.0, 't': 1.0},
        'q_r': {'s': 0, 'r': 0.0, 't': 1.0, 'u': 0.0},
    },
    'Mthly': {
        'A_x': {'s': 0, 't': 1, 'u': 0, 'moment': 1},
        'E_x': {'s': 0, 't': 1, 'moment': 1, 'endowment': 1},
        'Z_m': {'s': 0, 't': 1, 'moment': 1},
        'annuity_variance': {'b': 1},
        'deferred_annuity': {'s': 0, 'u': 0, 't': -999, 'b': 1},
        'deferred_insurance': {'s': 0, 'u': 0, 'b': 1, 't': -999, 'moment': 1},
        'endowment_insurance': {'s': 0, 't': 1, 'b': 1, 'moment': 1},
        'immediate_annuity': {'s': 0, 't': -999, 'b': 1},
        'p_m': {'s_m': 0, 't_m': 1},
        'q_m': {'s_m': 0, 't_m': 1, 'u_m': 0},
        'temporary_annuity': {'s': 0, 't': -999, 'b': 1, 'variance': False},
        'term_insurance': {'s': 0, 't': 1, 'b': 1, 'moment': 1},
        'whole_life_annuity': {'s': 0, 'b': 1, 'variance': False},
        'whole_life_insurance': {'s': 0, 'moment': 1, 'b': 1},
    },
    'PolicyValues': {
        'L_from_prob': {'contract': None},
        'L_from_t': {'contract': None},
        'L_to_t': {'contract': None},
        'gross_future_loss': {'A': None, 'a': None, 'contract': None},
        'gross_policy_value': {'s': 0, 't': 0, 'n': -999, 'contract': None},
        'gross_policy_variance': {'s': 0, 't': 0, 'n': -999, 'contract': None},
        'gross_variance_loss': {'A2': 0, 'contract': None},
        'net_future_loss': {'b': 1},
        'net_policy_value': {'s': 0, 't': 0, 'b': 1, 'n': -999, 'endowment': 0, 'discrete': True},
        'net_policy_variance': {'s': 0, 't': 0, 'b': 1, 'n': -999, 'endowment': 0, 'discrete': True},
        'net_variance_loss': {'A': 0, 'b': 1},
    },
    'Premiums': {
        'annuity_equivalence': {'b': 1, 'discrete': True},
        'gross_premium': {'a': None, 'A': None, 'IA': 0, 'discrete': True, 'benefit': 1, 'E': 0, 'endowment': 0, 'settlement_policy': 0.0, 'initial_policy': 0.0, 'initial_premium': 0.0, 'renewal_policy': 0.0, 'renewal_premium': 0.0},
        'insurance_equivalence': {'b': 1, 'discrete': True},
        'net_premium': {'s': 0, 't': -999, 'u': 0, 'n': 0, 'b': 1, 'endowment': 0, 'discrete': True, 'return_premium': False, 'annuity': False, 'initial_cost': 0.0},
        'premium_equivalence': {'A': None, 'a': None, 'b': 1, 'discrete': True},
    },
    'Recursion': {
        'E_x': {'s': 0, 't': 1, 'endowment': 1, 'moment': 1},
        '__init__': {'depth': 3, 'verbose': True},
        'blog_options': {'latex': False, 'notebook': False},
        'decreasing_insurance': {'s': 0, 't': -999, 'b': 1, 'discrete': True},
        'deferred_annuity': {'s': 0, 't': -999, 'u': 0, 'b': 1, 'discrete': True},
        'deferred_insurance': {'s': 0, 'b': 1, 'u': 0, 't': -999, 'moment': 1, 'discrete': True},
        'e_x': {'s': 0, 't': -999, 'curtate': False, 'moment': 1},
        'endowment_insurance': {'s': 0, 't': 1, 'b': 1, 'moment': 1, 'discrete': True},
        'increasing_insurance': {'s': 0, 't': -999, 'b': 1, 'discrete': True},
        'p_x': {'s': 0, 't': 1},
        'q_x': {'s': 0, 't': 1, 'u': 0},
        'set_A': {'s': 0, 't': -999, 'u': 0, 'b': 1, 'moment': 1, 'endowment': 0, 'discrete': True},
        'set_DA': {'s': 0, 't': -999, 'b': 1, 'discrete': True},
        'set_E': {'s': 0, 't': 1, 'endowment': 1, 'moment': 1},
        'set_IA': {'s': 0, 't': -999, 'b': 1, 'discrete': True},
        'set_a': {'s': 0, 't': -999, 'u': 0, 'b': 1, 'variance': False, 'discrete': True},
        'set_e': {'s': 0, 't': -999, 'curtate': False, 'moment': 1},
        'set_p': {'s': 0, 't': 1},
        'set_q': {'s': 0, 't': 1, 'u': 0},
        'temporary_annuity': {'s': 0, 't': -999, 'b': 1, 'variance': False, 'discrete': True},
        'term_insurance': {'s': 0, 't': 1, 'b': 1, 'moment': 1, 'discrete': True},
        'whole_life_annuity': {'s': 0, 'b': 1, 'variance': False, 'discrete': True},
        'whole_life_insurance': {'s': 0, 'b': 1, 'discrete': True, 'moment': 1},
    },
    'Reserves': {
        'FPT_policy_value': {'s': 0, 't': 0, 'b': 1, 'n': -999, 'endowment': 0, 'discrete': True},
        'FPT_premium': {'s': 0, 'n': -999, 'b': 1, 'first': False},
        'fill_reserves': {'s': 0, 'reserve_benefit': False, 'contract': None},
        'r_V_backward': {'s': 0, 'r': 0, 'benefit': 1},
        'r_V_forward': {'s': 0, 'r': 0, 'premium': 0, 'benefit': 1},
        'set_reserves': {'T': 0, 'endowment': 0, 'V': None},
        't_V': {'s': 0, 't': 0, 'premium': 0, 'reserve_benefit': False, 'per_premium': 0, 'per_policy': 0},
        't_V_backward': {'s': 0, 't': 0, 'premium': 0, 'per_premium': 0, 'per_policy': 0, 'reserve_benefit': False},
        't_V_forward': {'s': 0, 't': 0, 'premium': 0, 'per_premium': 0, 'per_policy': 0, 'reserve_benefit': False},
    },
    'SULT': {
        '__init__': {'i': 0.05, 'radix': 100000, 'minage': 20, 'maxage': 130},
        'frame': {'minage': 20, 'maxage': 100},
    },
    'SelectLife': {
        'A_x': {'s': 0, 'moment': 1, 'discrete': True},
        '__init__': {'periods': 0, 'udd': True, 'verbose': False},
        'a_x': {'s': 0, 'moment': 1, 'discrete': True},
        'd_x': {'s': 0, 't': 1},
        'e_x': {'s': 0, 't': -999, 'curtate': True, 'moment': 1},
        'fill_table': {'radix': 100000},
        'frame': {'table': 'l'},
        'l_x': {'s': 0},
        'max_term': {'u': 0},
        'p_x': {'s': 0, 't': 1},
        'q_x': {'s': 0, 't': 1, 'u': 0},
        'set_select': {'radix': 100000, 'fill': False, 'l': None, 'd': None, 'q': None, 'A': None, 'a': None, 'e': None},
        'set_table': {'l': None, 'd': None, 'q': None, 'A': None, 'a': None, 'e': None, 'fill': True, 'radix': 100000},
        'whole_life_insurance': {'s': 0, 'moment': 1, 'b': 1, 'discrete': True},
    },
    'Survival': {
        'd_x': {'s': 0},
        'f_x': {'s': 0, 't': 0},
        'l_x': {'s': 0},
        'mu_x': {'s': 0, 't': 0},
        'p_x': {'s': 0, 't': 1},
        'q_x': {'s': 0, 't': 1, 'u': 0},
        'set_survival': {'S': None, 'f': None, 'l': None, 'mu': None, 'minage': 0, 'maxage': 1000},
    },
    'UDD': {
        'deferred_annuity': {'s': 0, 'u': 0, 't': -999, 'b': 1, 'variance': False},
        'endowment_insurance': {'s': 0, 't': 1, 'b': 1, 'moment': 1},
        'interest_frame': {'i': 0.05},
        'temporary_annuity': {'s': 0, 't': -999, 'b': 1, 'variance': False},
        'term_insurance': {'s': 0, 't': 1, 'b': 1, 'moment': 1},
        'whole_life_annuity': {'s': 0, 'b': 1, 'variance': False},
        'whole_life_insurance': {'s': 0, 'moment': 1, 'b': 1},
    },
    'Uniform': {
        'E_x': {'s': 0, 't': -999, 'endowment': 1, 'moment': 1},
        'e_x': {'s': 0, 't': -999, 'curtate': False, 'moment': 1},
        'term_insurance': {'s': 0, 't': 1, 'b': 1, 'moment': 1, 'discrete': False},
        'whole_life_insurance': {'s': 0, 'moment': 1, 'b': 1, 'discrete': True},
    },
    'Woolhouse': {
        '__init__': {'three_term': False, 'approximate_mu': True},
        'deferred_annuity': {'s': 0, 't': -999, 'u': 0, 'b': 1, 'mu': None, 'mu1': None},
        'deferred_insurance': {'s': 0, 'u': 0, 't': -999, 'b': 1, 'mu': None, 'mu1': None},
        'endowment_insurance': {'s': 0, 't': -999, 'b': 1, 'mu': None, 'mu1': None},
        'mu_x': {'s': 0},
        'temporary_annuity': {'s': 0, 't': -999, 'b': 1, 'mu': None, 'mu1': None},
        'term_insurance': {'s': 0, 't': -999, 'b': 1, 'mu': None, 'mu1': None},
        'whole_life_annuity': {'s': 0, 'b': 1, 'mu': None},
        'whole_life_insurance': {'s': 0, 'b': 1, 'mu': None},
    },
}
