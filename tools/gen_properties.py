"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
SRC = "src/actuarialmath/"
P = []
def add(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[SRC+f for f in files],
                     mechanism=[dict(name=n, where=SRC+w) for n, w in mech],
                     **({"state": [dict(name=a, meaning=b, where=SRC+c) for a,b,c in state]} if state else {}),
                     observe_at=observe or ["return values of the public methods"], hook_needed=None)))

T = "The tests are fixed exam questions with one published answer each (rounded to 3-4 digits); "

add("P01", "Every form of an interest rate describes the same rate of interest",
 "Whichever single form the caller gives (annual interest, discount rate, discount factor, force of interest, or nominal interest or discount compounded m times a year), the reported i, d, v and delta satisfy v = 1/(1+i) = 1-d = exp(-delta) for the rate that was given, and the discount factor for t years is v to the power t. A user-supplied discount function is used as given, and input without a non-negative rate is rejected. A model that has been given no rate discounts nothing.",
 ["inputs"], "all non-negative rates in every form, every compounding frequency m>=1, every duration t>=0",
 T+"they construct a handful of rates, mostly in the forms i and delta.",
 ["interest.py","life.py"], [("Interest.__init__ and rate properties","interest.py"),("Life.set_interest","life.py")])
add("P02", "Nominal-rate conversion, doubled force and annuity-certain identities",
 "Converting an annual interest or discount rate to its m-thly nominal form and back returns the original rate, and frequency zero means the force of interest. Doubling the force of interest returns, in the form given, the rate whose discount factor is the square of the original. An annuity-certain equals the discounted value of its level payments of 1/m per period (continuous at frequency zero; perpetuity when no term is given), due or immediate.",
 ["inputs"], "all positive rates, all m>=0, all terms, both payment timings",
 T+"only a few (m, rate) pairs appear; round trips and sums of payments are never compared.",
 ["interest.py"], [("Interest.mthly / double_force / annuity","interest.py")])
add("P03", "Moment and probability helpers agree with probability theory",
 "The variance, covariance, Bernoulli, binomial and mixture helpers return the exact mean or variance of the stated random variable, with the mixture variance equal to the conditional-variance decomposition. For the normal approximation to a sum of N independent risks, the percentile and the cumulative probability are inverse to each other and have mean N times, and variance N times, the single-risk values.",
 ["inputs"], "all probabilities, values, weights and portfolio sizes",
 T+"each helper is evaluated at a few points and inverses are not composed.",
 ["life.py"], [("Life.variance/covariance/bernoulli/binomial/mixture/conditional_variance/portfolio_*","life.py")])
add("P04", "All forms of a survival model derived from one given form are consistent",
 "Given a survival model in any one form (survival function, lives, density or force of mortality), the probabilities, lives, deaths, density and force it reports all describe that same lifetime distribution: survival is the ratio of lives, deferred mortality is the drop in survival over its period, deaths are the one-year drop in lives, density is the rate of decline of survival, and force is density divided by survival.",
 ["inputs","configurations"], "every differentiable survival model, every selection age, duration and period, for each of the four input forms",
 T+"each uses one form of one model and reads one derived quantity.",
 ["survival.py"], [("Survival.set_survival derived closures; l_x,d_x,p_x,q_x,f_x,mu_x","survival.py")])
add("P05", "Expected future lifetime moments equal their defining sums and integrals",
 "The first and second moments and the variance of curtate or complete future lifetime, limited to any term or unlimited, equal the sums (curtate) or integrals (complete) of survival probabilities that define the moments of the lifetime capped at that term, for a life of any selection age and duration. The same meaning holds for every model class that offers the query.",
 ["inputs","configurations"], "all survival models, ages, select durations, terms, both lifetimes, three moments",
 T+"expected lifetimes are tested for a few laws, mostly first moments at duration zero.",
 ["lifetime.py","lifetable.py"], [("Lifetime.e_x","lifetime.py"),("LifeTable.e_x","lifetable.py")])
add("P06", "Fractional-age values obey the chosen assumption and meet integer ages exactly",
 "Under uniform distribution of deaths lives are linear between integer ages, and under constant force they are geometric; survival and deferred mortality over any fractional span are the ratios of those interpolated lives, the force and density are their corresponding derivatives, and pure endowments discount those survival probabilities. Limited and whole expected lifetimes from an integer age are the integral of that survival curve, and the curtate/complete approximations are inverse to each other.",
 ["inputs","configurations"], "all integer lives columns, fractional starts, fractional terms and deferrals, both assumptions",
 T+"a dozen hand-picked fractions; spans crossing several integer ages are rarely touched.",
 ["fractional.py"], [("Fractional.l_r,p_r,q_r,mu_r,f_r,E_r,e_r,e_approximate","fractional.py")])
add("P07", "Insurance values equal the first-principles expected present value",
 "Pure endowment, whole life, term, deferred and endowment insurances return the expected value of (the requested power of) the discounted benefit actually paid, discrete or continuous, for any benefit amount, endowment amount, select duration, deferral and term, with terms running past the limiting age cut there.",
 ["inputs","configurations"], "all survival models and interest rates, ages, durations, terms, deferrals, amounts, first and second moments, both timings",
 T+"unit benefits at duration zero dominate; second moments, deferral and select durations are sampled a few times.",
 ["insurance.py"], [("Insurance.E_x,A_x,whole_life_insurance,term_insurance,deferred_insurance,endowment_insurance","insurance.py")])
add("P08", "Reported variances are the variance of the benefit's present value",
 "Whenever variance is requested for a pure endowment, whole life, term, deferred or endowment insurance, the result is the second moment minus the squared first moment of that contract's present value, and so scales with the square of the benefit.",
 ["inputs","configurations"], "all models, ages, durations, terms, deferrals, benefit amounts, both timings",
 T+"variances are requested for a few products with unit benefit.",
 ["insurance.py"], [("VARIANCE branches and Insurance.insurance_variance","insurance.py")])
add("P09", "Annuity values equal the expected present value of payments made while alive",
 "Whole life, temporary, deferred, immediate and certain-and-life annuities return the sum or integral of discounted survival times the payment rate, for any amount, select duration, deferral and term, including at zero interest. Annuity and insurance twins convert into each other, and annuity variances are the variance of the present value of the payments.",
 ["inputs","configurations"], "all survival models that end at the limiting age, all interest rates, ages, durations, terms, deferrals, amounts, both timings",
 T+"the shortcut through insurance is never compared with the payments themselves for general inputs.",
 ["annuity.py"], [("Annuity.a_x,immediate/whole_life/temporary/deferred/certain_life_annuity,annuity_twin,insurance_twin,annuity_variance","annuity.py")])
add("P10", "Increasing plus decreasing benefits equal a level benefit",
 "Increasing insurances and annuities pay an amount proportional to the year, decreasing ones pay the remaining years (a decreasing annuity counts them to the limiting age when its term runs past it), and the two together equal (n+1) times (n times when continuous) the level product of the same term, for any amount, age and select duration.",
 ["inputs","configurations"], "all models, ages, select durations, terms, amounts, both timings",
 T+"increasing products appear a few times, decreasing almost never, and never at a select duration.",
 ["insurance.py","annuity.py"], [("Insurance.increasing_insurance/decreasing_insurance","insurance.py"),("Annuity.increasing_annuity/decreasing_annuity","annuity.py")])
add("P11", "Premiums satisfy the equivalence principle",
 "The net or gross premium returned makes the expected present value of premiums equal that of benefits and expenses, for any deferral, payment term, endowment, returned premiums, initial, renewal and settlement expense. The shortcuts that give an insurance or annuity factor from a premium, or a premium from factors, are inverse to one another.",
 ["inputs","configurations"], "all models, benefit designs, payment terms and expense loadings",
 T+"each fixes one benefit design and expense pattern.",
 ["premiums.py"], [("Premiums.net_premium,gross_premium,*_equivalence","premiums.py")])
add("P12", "Policy values are expected future benefits and expenses minus premiums",
 "Net and gross policy values at any duration equal the expected present value of future benefits and expenses less future premiums, prospectively, for whole life, term and endowment contracts; a net policy value is zero at issue, and the gross value under the equivalence premium is zero at issue. Policy terms passed in renewal form keep everything except the initial expenses, which become renewal ones.",
 ["inputs","configurations"], "all models, ages, select durations, policy durations, terms, benefits, expenses, both timings",
 T+"a few durations of standard products; unequal endowments, select durations and renewals are untested.",
 ["policyvalues.py"], [("PolicyValues.net_policy_value,gross_policy_value,net_future_loss,gross_future_loss; Contract","policyvalues.py")])
add("P13", "Variance of future loss is the variance of the loss random variable",
 "For whole life and equal-endowment contracts, the variance of the net or gross future loss at any duration is the variance of the present value of benefits and expenses less premiums as a function of the time of death, in terms of the first and second insurance moments at that duration.",
 ["inputs","configurations"], "all models, ages, durations, terms, amounts, expenses, both timings",
 T+"only numeric factors at issue are used.",
 ["policyvalues.py"], [("PolicyValues.net_variance_loss,net_policy_variance,gross_variance_loss,gross_policy_variance","policyvalues.py")])
add("P14", "Present-value random variables and their inverses agree",
 "The present value of an insurance, an annuity or a policy loss for a given time of death equals the discounted payments made up to that death; for the continuous products, time from value and probability from value are the inverses of value from time and value from probability; the yearly loss inverse names a whole year whose loss is the one asked for whenever the numerical search attained it. The discrete versions round the lifetime to whole policy years as documented (down for insurances, up for annuities).",
 ["inputs","configurations"], "all interest rates, survival models, times of death, probabilities and contract terms",
 T+"a few percentiles; the inverse maps are not composed.",
 ["insurance.py","annuity.py","policyvalues.py"], [("Insurance.Z_*","insurance.py"),("Annuity.Y_*","annuity.py"),("PolicyValues.L_from_t/L_from_prob/L_to_prob","policyvalues.py")])
add("P15", "Reserve recursions satisfy the one-year accumulation equation",
 "Every reserve computed forward or backward satisfies (reserve + premium - expenses)(1+i) = q * benefit + p * next reserve with the given benefit (plus the reserve itself where it is part of the benefit); given reserves are returned unchanged, and filling the table keeps every value already there and only adds values that satisfy the equation. Mid-year reserves satisfy the same equation over the part-year.",
 ["inputs","histories"], "all tables of known reserves, durations, premiums, benefits, expenses, mortality and interest; every fill order",
 T+"a handful of three-year examples.",
 ["reserves.py"], [("Reserves.set_reserves,fill_reserves,t_V_*,r_V_*","reserves.py")], state=[("_reserves['V']","reserve at each policy year","reserves.py")])
add("P16", "Full preliminary term reserves are net reserves of the one-year-older policy",
 "The first-year preliminary-term premium is the cost of one-year term cover, the later premium is the net level premium of the same policy issued one year later, and the modified reserve is zero in the first year and thereafter the net reserve of that later policy.",
 ["inputs","configurations"], "all models, ages, select durations, terms, endowments, durations",
 T+"two examples.", ["reserves.py"], [("Reserves.FPT_premium,FPT_policy_value","reserves.py")])
add("P17", "Life-table queries are ratios of the tabulated lives",
 "Survival, deferred mortality, deaths, pure endowments and expected lifetimes read from a life table equal the corresponding ratios and sums of its lives column, with nobody surviving past the end of the table; its force of mortality is minus the logarithm of one-year survival; the standard ultimate table is the Makeham survival curve it documents.",
 ["inputs","configurations"], "all lives columns, ages, durations, terms, deferrals, amounts and moments",
 T+"one table, few spans, none crossing the end of the table.",
 ["lifetable.py","sult.py"], [("LifeTable.l_x,d_x,p_x,q_x,e_x,E_x,mu_x","lifetable.py"),("SULT","sult.py")], state=[("_table","columns l,d,q,p by age","lifetable.py")])
add("P18", "Filling a life table keeps inputs and adds only implied values",
 "Completing a life table never changes a cell the user supplied, and every cell it adds is the value implied by the actuarial relations between lives, deaths, mortality and survival at that age or the next (to the seven decimals stored). When no lives are given the radix is used at the first age only.",
 ["inputs","histories"], "all partially filled consistent tables, all orders in which cells become available",
 T+"a few particular patterns of missing cells.",
 ["lifetable.py"], [("LifeTable.set_table,fill_table","lifetable.py")], state=[("_table","columns l,d,q,p by age","lifetable.py")])
add("P19", "Select tables read across the select period and then down the ultimate column",
 "A select-and-ultimate table answers every query for a life selected at x with duration s from column s while within the select period and from the ultimate column at the attained age afterwards; survival is the product of those one-year probabilities. Filling keeps supplied cells and adds only values satisfying the one-year relations for lives, deaths, mortality, insurance, annuity and expected lifetime.",
 ["inputs","histories"], "all select tables, select periods, ages, durations, terms; every fill order",
 T+"small tables with one query each.",
 ["selectlife.py"], [("SelectLife._get_sel,l_x,p_x,q_x,A_x,a_x,e_x,set_table,set_select,fill_table","selectlife.py")], state=[("_select","columns by age and duration","selectlife.py")])
add("P20", "Mortality-law shortcuts equal the general formulas for that law",
 "For beta, uniform, Makeham, Gompertz and constant-force mortality, the survival, density, force, expected lifetime, pure endowment, insurance and annuity values returned by the law equal those obtained from its force of mortality by the general definitions, for every age, select duration, term, amount and moment offered.",
 ["inputs","configurations"], "all law parameters, ages, durations, terms, amounts, moments, both timings",
 T+"each law is tested in two or three questions at duration zero with unit benefits.",
 ["mortalitylaws.py","constantforce.py"], [("Beta,Uniform,Makeham,Gompertz","mortalitylaws.py"),("ConstantForce","constantforce.py")])
add("P21", "Extra-risk adjustments change mortality exactly as documented",
 "Adding to or multiplying the force changes one-year survival by the corresponding factor or power, rating up the age reads the older life, and multiplying the rate multiplies one-year mortality; survival and mortality always sum to one, and the underlying model is unchanged.",
 ["inputs","configurations"], "all base models, ages, durations, adjustment kinds and amounts",
 T+"one adjustment per kind is evaluated at one or two ages.",
 ["extrarisk.py"], [("ExtraRisk.p_x,q_x,__getitem__","extrarisk.py")])
add("P22", "M-thly insurances and annuities equal sums over m-thly payments",
 "With m payments a year the discount, survival and mortality over whole numbers of periods are those of the underlying model over the corresponding fractions of a year, insurances are the discounted sum of period death probabilities, twins and variances use the m-thly discount rate, and annuities are the corresponding sums of 1/m payments.",
 ["inputs","configurations"], "all base models, frequencies, ages, durations, terms, deferrals, amounts, moments",
 T+"one m=2 and a few m=12 cases.",
 ["mthly.py"], [("Mthly","mthly.py")])
add("P23", "UDD m-thly shortcuts follow from the uniform-deaths assumption",
 "Under uniform deaths the m-thly insurance is the annual one times i over the nominal rate (at double force for second moments), and m-thly annuities are alpha times the annual annuity less beta times the surviving term factor, with alpha and beta the documented interest functions; amounts scale values linearly and variances quadratically.",
 ["inputs","configurations"], "all base models, rates, frequencies including continuous, ages, durations, terms, amounts",
 T+"a few unit-benefit examples with one table.", ["udd.py"], [("UDD","udd.py")])
add("P24", "Woolhouse values apply the two- or three-term expansion consistently",
 "Every Woolhouse annuity is the annual annuity less (m-1)/2m and, with the third term, less (m*m-1)/12m*m times (force of mortality plus force of interest) at the age where payments start, with temporary and deferred values the discounted differences of those; insurances are the twins or differences of these annuities.",
 ["inputs","configurations"], "all base models, frequencies, ages, durations, terms, deferrals, amounts, force approximations",
 T+"one or two ages with the two-term formula.", ["woolhouse.py"], [("Woolhouse","woolhouse.py")])
add("P25", "Recursion only returns values implied by the facts it was given",
 "When values of some life-contingent quantities consistent with one survival and interest model are stored, storing then querying a value returns it, and every further value the recursion solver returns equals that model's value; it returns no number (None, or an error) rather than a wrong one when the facts do not determine it. (Positive interest; survival positive at every age asked about, ages up to the default limiting age.)",
 ["inputs","histories"], "all consistent sets of stored facts, all queries, in any order",
 T+"each stores two or three facts and asks one question.",
 ["recursion.py"], [("Recursion.set_*, _*_x helpers and public queries","recursion.py")], state=[("db","stored facts by key","recursion.py")])
add("P26", "Queries do not change the model or the contract",
 "Asking a survival model, life table, select table, contract or premium and reserve calculator for any value leaves every observable setting of it, of the interest assumption and of the arguments unchanged, so a repeated query gives the same answer and copies made for renewals leave the original untouched.",
 ["histories","inputs"], "all sequences of queries over all models",
 T+"tests build a fresh object per question and query it once.",
 ["interest.py","life.py","survival.py","lifetime.py","fractional.py","insurance.py","annuity.py","premiums.py","policyvalues.py","reserves.py","lifetable.py","selectlife.py","mortalitylaws.py","constantforce.py","extrarisk.py","mthly.py","udd.py","woolhouse.py"],
 [("all query methods (frame conditions)","insurance.py")])
add("P27", "Term arithmetic and numerical helpers honour their contracts",
 "Adding terms treats whole life as absorbing, and a term is shortened exactly when age plus deferral plus term would exceed the limiting age. The integral helper integrates the given function over the given limits, the derivative helper differentiates it, and the solver returns an argument at which the function takes the target value, leaving the function evaluated there last.",
 ["inputs"], "all terms, ages, deferrals, limiting ages, functions, limits and targets",
 T+"helpers are only exercised through particular questions.",
 ["actuarial.py"], [("Actuarial.add_term,max_term,isclose,integral,derivative,solve","actuarial.py")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
