"""Writes properties.jsonl, MANIFEST.json and known-findings.json from the texts below:  python3 /verif/meta.py"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'

SCH, HLP, SIM, STK, PRF, POOL, ACT, REP, BATCH, MAIN = (
    'logic/reward_schemes.py', 'logic/helper.py', 'logic/sim.py', 'logic/stakeholder.py', 'logic/stakeholder_profiles.py',
    'logic/pool.py', 'logic/activations.py', 'logic/model_reporters.py', 'custom_batchrunner.py', 'main.py')

P = []


def prop(id, title, statement, over, text, why, mechanism, state=()):
    files = sorted({w.split(':')[0] for _, w in mechanism})
    anchors = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m} for n, m in state]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': anchors})


prop('C01', 'Rewards are bounded and never exceed the total of an epoch',
     'The reward of a pool never exceeds the share of the total rewards that corresponds to its stake, counted up to the saturation '
     'threshold, so the rewards of any set of pools that together hold at most the whole stake never exceed the total. Under every '
     'scheme except CIP-7 (whose published formula can be negative) no reward is negative. Every documented reward scheme can drive '
     'a simulation.',
     ['inputs', 'configurations'], 'all pledges, stakes and a0, all five reward schemes, many k (and any real k); any set of pools',
     'The tests evaluate a handful of (stake, pledge, a0, k) points of some schemes; a bound has to hold at every point.',
     [('reward formulas', SCH + ':calculate_pool_reward'), ('saturation threshold', SCH + ':global_saturation_threshold'),
      ('scaling to the total', HLP + ':calculate_pool_reward')])
prop('C02', 'Rewards follow the published formula of their scheme',
     'The reward of a pool equals the published definition of the selected scheme (Cardano, simplified, flat pledge benefit, CIP-7, '
     'CIP-50). More stake never earns a pool less, stake and pledge beyond the saturation threshold earn nothing extra, more '
     'pledge never lowers the reward of a saturated pool, and with a0 = 0 pledge has no influence at all except under CIP-50, '
     'where the pledge limits the stake that is rewarded.',
     ['inputs', 'configurations'], 'all pledges, stakes and a0, all five schemes, many k',
     'Monotonicity and equality with a formula quantify over a continuum of inputs; the tests compare a few values.',
     [('reward formulas', SCH + ':RewardScheme subclasses'), ('pool saturation threshold', SCH + ':get_pool_saturation_threshold'),
      ('potential profit', HLP + ':calculate_potential_profit')])
prop('C03', 'A pool\'s reward is divided without remainder among its members',
     'When a pool earns more than its cost, the operator and the delegators together receive exactly the profit: the operator the '
     'margin plus the share of the rest that corresponds to the pledge, each delegator the share of the rest that corresponds to '
     'the own stake, and nobody a negative amount. When it does not, the operator bears the whole loss and delegators neither '
     'receive nor pay anything.',
     ['inputs'], 'all rewards, costs, margins, pledges and delegations',
     'Conservation must hold for every combination; the tests use single pools with fixed numbers.',
     [('delegator share', HLP + ':calculate_delegator_reward_from_pool'), ('operator share', HLP + ':calculate_operator_reward_from_pool')])
prop('C04', 'Margins are fractions that let a pool outcompete its target',
     'Every margin an agent sets lies between 0 and 1, and the desirability of a pool is the part of its potential profit that is '
     'left to the delegators, never negative. Where an agent asks for a positive margin, the pool is at least as desirable as the '
     'competitor it aims to displace; it leaves delegators no more than that requires. For non-myopic agents this holds even if '
     'the competitor were to give up its margin.',
     ['inputs', 'histories'], 'all potential profits, all states of the competing pools, all numbers of planned pools, both profiles',
     'The tests check one or two hand-made rankings; the guarantee is about every set of competitors.',
     [('margin', HLP + ':calculate_suitable_margin'), ('desirability', HLP + ':calculate_pool_desirability'),
      ('margins of a plan', PRF + ':calculate_margins_and_utility'), ('recorded values', POOL + ':set_profit, set_desirability')])
prop('C05', 'Operators divide stake and cost evenly and within their means',
     'An operator pledges an equal part of the own stake to each of its pools, never more than the saturation threshold each and never '
     'more than its stake in total. The first pool costs the operator\'s cost, every further one the configured fraction of it, and each '
     'pool is charged the average. After a move an operator\'s pool is private exactly if its pledge alone saturates it, and no move makes '
     'anybody run more than k pools.',
     ['inputs', 'histories'], 'all stakes, costs, fractions and numbers of pools; turns from any number of pools to any other',
     'The tests use a few numbers of pools; caches and rounding at other numbers are not reached.',
     [('pledge', HLP + ':calculate_pledge_per_pool'), ('cost', HLP + ':calculate_cost_per_pool'), ('opening pools', STK + ':open_pool'),
      ('updating pools', STK + ':update_pool')])
prop('C06', 'A pool\'s stake is its pledge plus the current delegations to it',
     'After any sequence of delegation changes a pool\'s stake is its pledge plus the latest amount of each delegator, and exactly '
     'those agents are recorded as delegators whose latest amount is positive. Changing one pool affects no other pool.',
     ['histories'], 'every sequence of delegation changes by several delegators with any amounts',
     'It is a statement about histories; the tests change a delegation once or twice.',
     [('delegation changes', POOL + ':update_delegation')], [('delegators', 'current delegation per agent'), ('stake', 'total of the pool')])
prop('C07', 'Pools, delegations and stakes stay consistent, one agent at a time',
     'When agents act one at a time, after every turn each pool belongs to an existing agent who knows it, each pool\'s stake is its '
     'pledge plus the delegations that its delegators have on record, no delegation points to a closed, private or own pool, and no '
     'agent has pledged and delegated more than its stake.',
     ['histories', 'schedules'], 'every consistent state, every agent, every move (open, close, resize pools, delegate anew, stay)',
     'The tests run a few sequences on hand-made states; the invariant must survive every history.',
     [('opening, closing, updating', STK + ':execute_strategy, open_pool, close_pool, update_pool'), ('removing delegations', STK + ':remove_delegations'),
      ('delegation', POOL + ':update_delegation')],
     [('pools', 'the live pools'), ('strategy', 'what an agent currently operates and delegates')])
prop('C08', 'Pools, delegations and stakes stay consistent, deciding simultaneously',
     'The consistency of pools, delegations and stakes (stakes add up, both sides agree on every delegation, nothing points to a closed, '
     'private or own pool, nobody commits more than its stake) also holds after every round in which agents decide on the same state '
     'and then act one after the other, as under simultaneous and semisimultaneous activation.',
     ['histories', 'schedules'], 'every consistent state, every combination of moves and every order in which they are carried out',
     'Conflicts between moves that were planned on the same state occur only for particular combinations and orders.',
     [('staged moves', STK + ':advance, execute_strategy'), ('groups', ACT + ':SemiSimultaneousActivation')])
prop('C09', 'Rankings list every live pool once, in the documented order',
     'At every time both rankings list every live pool exactly once and no other, with room for at least k + 1 positions. The ranking '
     'of potential is ordered by desirability, then potential profit, then age, the short-sighted one by current desirability, then age, '
     'according to the pools\' current values.',
     ['histories', 'schedules'], 'every consistent state, every move of every agent, rounds under every activation order',
     'A stale position shows only when a pool is changed while listed; the tests do not look at rankings after such moves.',
     [('ranking of potential', HLP + ':pool_comparison_key'), ('short-sighted ranking', SIM + ':pool_comparison_key_myopic'),
      ('re-ranking on changes', STK + ':execute_strategy, update_pool, open_pool, close_pool')],
     [('pool_rankings', 'pools by potential'), ('pool_rankings_myopic', 'pools by present value')])
prop('C10', 'Deciding changes nothing; only carrying out a move does',
     'While an agent weighs its options, the pools, all delegations, all strategies in force, all rankings and all stakes and costs are '
     'left exactly as they were, whatever it decides. The only effect is the agent\'s own pending plan; abstainers never have one.',
     ['inputs', 'histories'], 'every consistent state, every judgement, each behavioural profile',
     'A temporary change that is not undone on one path is invisible unless that path is taken and the whole state compared.',
     [('deciding', STK + ':update_strategy, choose_pool_strategy, find_delegation_move'), ('profiles', PRF + ':calculate_margins_and_utility')])
prop('C11', 'Delegators fill the best-ranked public pools up to saturation',
     'A delegating agent places its available stake in the public pools of others in the order of the ranking it goes by (potential for '
     'non-myopic, present value for myopic agents), each up to saturation. What fits nowhere goes to the best pool that was saturated already; stake stays undelegated only if no eligible pool '
     'remains. It never delegates more than it has, a negative amount, or to private, own or closed pools.',
     ['inputs', 'histories'], 'any stake, any pools with any delegations by the agent itself and by others, both profiles',
     'The tests use two or three pools with convenient numbers; the agent\'s own present delegations and ties are not varied.',
     [('allocation', STK + ':determine_stake_allocations'), ('spare stake of operators', STK + ':find_delegation_for_operator')])
prop('C12', 'Agents move exactly when it pays by more than the thresholds',
     'An agent changes its strategy exactly if the best alternative is worth more than both the utility it receives now and the one it '
     'expects from its present strategy, by more than the absolute and the relative threshold. It then adopts the better of operating and '
     'delegating, delegating if they tie. The utility it receives now is what its pools and delegations actually earn.',
     ['inputs', 'configurations'], 'all utilities of the alternatives, all thresholds, all activation orders, all pools and delegations',
     'The tests fix utilities far from the thresholds; the boundary and the interplay of both thresholds are not explored.',
     [('choice', STK + ':update_strategy'), ('current utility', STK + ':calculate_current_utility'),
      ('expected utility', STK + ':calculate_expected_utility')])
prop('C13', 'Operators choose the best number of pools, keeping the best ones',
     'The search for the number of pools always ends, considers only 1 to k pools and, if utility has a single peak over the number of '
     'pools, finds it; the plan uses the margins computed for that number. Shrinking closes the least desirable pools, and pools that are '
     'kept keep their delegations.',
     ['inputs', 'configurations'], 'every utility function (single-peaked for optimality), k up to 60, any pools owned before',
     'The jump search can miss or loop only for particular shapes and k; the tests exercise a few.',
     [('search', STK + ':choose_pool_strategy'), ('resizing', STK + ':determine_pools_to_keep, find_operator_move')])
prop('C14', 'Non-myopic agents expect exactly the top pools to get saturated',
     'A non-myopic agent expects the best-ranked pools, as many as are needed to take in the whole stake without oversaturation (k, where '
     'every pool saturates at 1/k), to become saturated or to keep a larger stake, and all other pools to be left with their pledge. Plans '
     'to operate are valued at the operator\'s income with that stake, including the competition of the planned pools with each other.',
     ['inputs', 'configurations'], 'every k, every position in the ranking, any stakes, margins and pledges',
     'Floating-point sums decide whether the k-th pool counts; the tests use a single small k.',
     [('expected stake', HLP + ':calculate_non_myopic_pool_stake'), ('operator utility', PRF + ':calculate_operator_utility_from_strategy')])
prop('C15', 'A run ends, and reports convergence, exactly when it should',
     'A run moves to its next phase, or ends in the last one, in the first round in which no agent has moved for the required number of '
     'consecutive rounds, counted anew in every phase, and otherwise ends after the maximum number of rounds. It reports convergence, '
     'and the rounds in which equilibria were reached and parameters changed, accordingly, and writes its results exactly once.',
     ['histories', 'configurations'], 'every sequence of moving and idle rounds, required idle rounds, phases and limits',
     'Which round is the last depends on the whole history of moves; the tests run to convergence in one way.',
     [('rounds', SIM + ':step'), ('convergence', SIM + ':has_converged'), ('phases', SIM + ':change_phase'), ('end', SIM + ':wrap_up_execution')],
     [('consecutive_idle_steps', 'idle rounds in a row'), ('equilibrium_steps', 'when equilibria were reached')])
prop('C16', 'Everything derived follows the parameters when a phase begins',
     'When a phase begins, k, a0, the saturation threshold, the potential profit and desirability of every pool and both rankings are '
     'those of the new parameters, a parameter with fewer values than phases keeping its last one, while pools, stakes and delegations '
     'stay as they are and the agents can go on acting. A known inactive fraction raises k accordingly in every phase.',
     ['histories', 'configurations'], 'rising and falling k and a0 over up to 4 phases, from every consistent state',
     'The tests cover one change of phase with few pools.',
     [('change of phase', SIM + ':change_phase'), ('profit of pools', POOL + ':set_profit'), ('threshold', SCH + ':k setter'),
      ('known inactive stake', SIM + ':__init__')])
prop('C17', 'Initial stakes add up to the active stake; costs and profiles fit',
     'Initially the agents\' stakes are non-negative, proportional to the drawn or given distribution and add up to exactly the active '
     'fraction of a total of 1. Costs lie within the requested range, and an empty range is refused. Only profiles with a positive weight '
     'occur, and abstainers have no strategy.',
     ['inputs', 'configurations'], 'any draws, sources, numbers of agents, inactive fractions, cost ranges and weights',
     'The tests sample a few seeds; an unlucky draw or fraction is not covered.',
     [('initial agents', SIM + ':initialize_agents'), ('normalisation', SIM + ':normalize_agent_stake'),
      ('distributions', HLP + ':generate_stake_distr_*, generate_cost_distr_unfrm, read_stake_distr_from_file')])
prop('C18', 'A run is reproducible from its parameters and seed',
     'Two runs with the same parameters and the same seed start with the same agents, stakes and costs and give their agents turns in the '
     'same sequence, whatever else ran in the process before or in between. A seed chosen automatically is recorded in the output and '
     'reproduces the run in the same way.',
     ['histories', 'configurations'], 'any values drawn, all stake sources and activation orders, given and automatic seeds',
     'A test can compare two runs for one seed; that no draw depends on unseeded or shared state is about all of them.',
     [('seeding', SIM + ':__init__'), ('draws', HLP + ':generate_*'), ('shuffles', ACT + ':*'), ('recorded seed', SIM + ':export_initial_state_desc_file')])
prop('C19', 'Every agent gets exactly one turn per round, in the documented order',
     'In every round every agent decides exactly once, and exactly those who decided to move carry out that move, once. Sequential order '
     'is fixed, random order is decided by the draw alone, and under (semi)simultaneous order all agents of a group decide before any of '
     'them acts and act before the next group decides. A round is idle exactly if nobody moved.',
     ['schedules', 'configurations'], 'all outcomes of shuffling and sampling, all combinations of moving agents, group sizes 1 to 5',
     'Which agents are skipped or repeated depends on the draw and on group sizes that do not divide the number of agents.',
     [('groups', ACT + ':SemiSimultaneousActivation.step'), ('turns', STK + ':step, advance'), ('rounds', SIM + ':step')])
prop('C20', 'Metrics of pools, pledges and margins mean what is documented',
     'The metrics on pool and operator counts, pools per operator, pledges, pledge rate, margins, saturation, delegated and total stake, '
     'stake pairs, stake per agent and cost-efficient agents equal their documented definitions in every state, including those without '
     'pools, with abstainers and with agents running several pools.',
     ['inputs'], 'all numbers, sizes, pledges, margins and owners of pools',
     'The tests cover few metrics on one hand-made state each.',
     [('metrics', REP + ':get_*'), ('ids', REP + ':REPORTER_IDS')])
prop('C21', 'Concentration metrics match their definitions',
     'The Nakamoto coefficient is the smallest number of agents that control more than half of the stake in pools (of all agents\' stake '
     'before there are pools). The Gini coefficients (over the operators, or padded with '
     'non-operators to k agents), the statistical distance between the stake agents own and the stake their pools '
     'control, and the homogeneity of pool sizes equal their definitions and stay within their ranges.',
     ['inputs'], 'all stakes, pools and owners, ties included',
     'Minimality and pairwise sums over all distributions cannot be sampled; ties at exactly half of the stake are rare.',
     [('Nakamoto coefficient', REP + ':get_nakamoto_coefficient'), ('Gini', REP + ':gini_coefficient'), ('distance', REP + ':get_controlled_stake_distr_stat_dist')])
prop('C22', 'Agents are ranked correctly, and so are the operators',
     'Ranks are a permutation of 1 to n that follows the values from best to worst, then the tie-breaking values, then age. The mean and '
     'median stake rank (rank 1: the largest stake) and cost rank (rank 1: the lowest cost) of the pools\' operators are computed from '
     'these ranks.',
     ['inputs'], 'any values, ties included, with and without tie breakers; any owners of pools',
     'Ties on several levels are needed to tell orders apart.',
     [('ranks', HLP + ':calculate_ranks'), ('rank metrics', REP + ':get_avg_stk_rnk, get_avg_cost_rnk, get_median_stk_rnk, get_median_cost_rnk')])
prop('C23', 'What is written describes the state of the system',
     'The initial state written at the start of a run describes the stakes, costs and seed it starts with. At the end the written lists name every pool and every agent exactly once with the properties they have at that moment, the '
     'summary agrees with them, and the experiment is tracked with its parameters and result. Each round is recorded with the requested '
     'metrics under their names; the last record describes the final state.',
     ['inputs', 'histories'], 'any initial stakes and costs; any final state of pools, stakes and margins; any moves in up to 3 rounds; any metrics',
     'The tests do not compare written files with the state.',
     [('pools file', SIM + ':export_pools_file'), ('agents file', SIM + ':export_agents_file'), ('summary', SIM + ':export_final_state_desc_file'),
      ('metrics', SIM + ':export_metrics_file, step')])
prop('C24', 'A batch runs every combination once and reports final states',
     'A batch run carries out every combination of the listed parameter values with every repetition\'s seed exactly once, under names '
     'that tell them apart. The result reported for a run, and its line in the results file, name its parameters and give the metrics of '
     'its final state, and with a collection period also those of every such round.',
     ['configurations', 'histories'], 'up to 24 runs with any lengths and metrics; all collection periods up to 10',
     'Runs that stop at the limit and runs that converge end differently; the tests do not run batches.',
     [('combinations', BATCH + ':_make_model_kwargs'), ('one run', BATCH + ':_model_run_func'), ('results', BATCH + ':custom_batch_run, _collect_data')])
prop('C25', 'The command line accepts exactly the documented values',
     'Each numeric command-line option accepts a number exactly if it is among the documented values (natural numbers, finite non-negative '
     'or positive decimals, fractions, listed ids), nan and infinities never. The simulation is started with exactly the values given and '
     'with the documented defaults for all other options.',
     ['inputs', 'configurations'], 'any integer, any IEEE double, for each option; every option by itself and in pairs',
     'Boundary values and special floats of some twenty options; the tests do not touch the command line.',
     [('types', HLP + ':positive_int, non_negative_int, positive_float, non_negative_float, fraction'), ('options', HLP + ':add_script_arguments'),
      ('start', MAIN + ':main')])
prop('C26', 'Plans are valued at what they would earn once in force',
     'An agent values a plan to delegate at its share of what each pool would earn with the plan in force, counting its own present '
     'delegation to a pool not twice, the stake a far-sighted agent expects a pool to attract included, and closed pools at nothing; this '
     'works in every state, also with pools that have become unprofitable. A short-sighted agent values a plan to operate at the income '
     'of its pools with the stake they have now.',
     ['inputs', 'histories'], 'any stakes, present and planned delegations, margins and costs (loss-making pools included)',
     'Double counting shows only if the agent already delegates to a pool in question; losses only after unfavourable changes.',
     [('delegator utility', PRF + ':calculate_delegator_utility_from_pool'), ('short-sighted operator utility', PRF + ':MyopicStakeholder.calculate_operator_utility_from_strategy'),
      ('sum', STK + ':calculate_expected_utility')])
prop('C27', 'A run can be repeated from the parameters it wrote down',
     'The parameters given to a run are the ones in force. A run writes down all of its parameters with their values (chosen seed and '
     'changes of k and a0 over the phases included), and a run that takes its input from this file is the same run: it has the same '
     'parameters in force, the same agents, stakes, costs and turns, and writes down the same parameters.',
     ['inputs', 'configurations', 'histories'], 'any values of all parameters, given or left at their defaults; any draws of the generators',
     'A parameter that is lost or changed on the way shows only for values other than the default; the tests do not use input files.',
     [('parameters in force', SIM + ':Simulation.__init__'), ('parameters written', SIM + ':export_args_file'),
      ('input from a file', HLP + ':read_args_from_file')])
prop('C28', 'The batch-run command runs what it is asked to run',
     'The batch-run command hands every value given on its command line to the runs it starts: each option with one or several values, the '
     'flags, the weights of the agent profiles, the seed and the name, under parameter names that a simulation knows. It accepts all '
     'documented reward schemes and nothing else; a combination of values is run once, without a seed a drawn one is used.',
     ['inputs', 'configurations'], 'any values of all options, by themselves and several of them',
     'Some twenty options are parsed, renamed and split into fixed and varying parameters; the tests never start the command.',
     [('command', 'batch-run.py:main section'), ('options', HLP + ':add_script_arguments'), ('runs', BATCH + ':custom_batch_run')])
prop('C29', 'Nothing is created or lost when rewards are paid out',
     'In every state of a system, what all agents together receive from their pools and delegations is what the pools earn less what it '
     'costs to run them, and pools earn no more than the rewards of an epoch. Who runs no pool never pays; who takes no part receives nothing.',
     ['inputs', 'histories'], 'any stakes, pledges, delegations, margins and costs (loss-making pools included), all schemes, both profiles',
     'The sum runs through the agents\' own views of pools and delegations, which single-pool tests do not combine.',
     [('utility of an agent', STK + ':calculate_current_utility'), ('operator share', HLP + ':calculate_operator_utility_from_pool'),
      ('delegator share', HLP + ':calculate_delegator_utility_from_pool'), ('rewards', SCH + ':calculate_pool_reward')])
prop('C30', 'Min-aggregate pledge is the least pledge that controls half of the stake',
     'The min-aggregate pledge metric is the smallest total pledge of a set of pools that together hold at least half of the stake that is '
     'in pools, and 0 without pools.',
     ['inputs'], 'all sizes and pledges of pools, and all sets of pools',
     'Minimality over all subsets for all pools cannot be sampled.',
     [('optimisation', REP + ':get_min_aggregate_pledge')])
prop('C31', 'Decisions depend on the present state, not on how it came about',
     'What an agent decides depends on the stakes, pools and delegations there are and on the parameters now in force. It is the same '
     'whether this state was set up directly or reached in another way: with pools opened and closed before, delegations changed, moves '
     'considered but not made, an earlier phase with other parameters, or other simulations run in the same process.',
     ['inputs', 'histories'], 'any pledge and delegation of the competing pool; seven kinds of history; both profiles',
     'Left-over state (caches, rankings, pool copies) shows only in the comparison of two histories that end alike.',
     [('decision', STK + ':update_strategy'), ('caches', HLP + ':lru_cache functions'), ('moves', STK + ':execute_strategy'),
      ('rankings', SIM + ':pool_rankings, adjust_params')])
prop('C32', 'Graphs show the recorded metrics',
     'If graphs are asked for, a run that ends leaves one figure for every tracked metric that has a single value per round, which shows '
     'the recorded value at every recorded round, with the rounds in which an equilibrium was reached and those at which parameters '
     'changed marked; and one that shows the stake each agent controls in every round but the initial one, stacked. If not, it leaves none. '
     'A batch leaves, for every metric and every parameter that takes several values, a figure with one point per execution at its '
     'values of the two (executions with a negative metric, which means that it has no value, are left out); and, if exactly two parameters '
     'take several values, a heat map per metric that shows the value of each execution at its combination.',
     ['inputs', 'configurations'], 'any recorded values, any pattern of idle rounds and phases; up to three varying parameters',
     'The tests produce no graphs.',
     [('plots', HLP + ':plot_line, plot_stack_area_chart, plot_aggregate_data, plot_aggregate_data_heatmap'), ('selection', SIM + ':export_graphs'),
      ('batch', 'batch-run.py:main part')])
prop('C33', 'Every run has a number and a folder of its own and disturbs no other',
     'Every run, and every batch, gets the serial number after the last one and writes to a new folder named by this number and its name; '
     'within a batch the runs are numbered from 1. Nothing that is already there is overwritten; only one line per run is appended to the list of '
     'experiments. A run or batch that is interrupted at any point leaves earlier results intact and keeps no later one from running. However '
     'the parallel executions of a batch interleave, its results file and the list of experiments have one header, at the top, and one whole '
     'line for each.',
     ['histories', 'crash points', 'schedules', 'configurations'], 'sequences of runs and batches; an interruption before any operation on a file; any '
     'interleaving of the operations of two parallel executions on the files they share',
     'The tests write no files, interrupt nothing and run nothing in parallel.',
     [('serial number', HLP + ':read_seq_id, write_seq_id'), ('shared files', HLP + ':write_to_csv'), ('folder of a run', SIM + ':Simulation.__init__'),
      ('batch', 'custom_batchrunner.py:custom_batch_run, _model_run_func')])
prop('C34', 'What a run recorded can be read back, the saved simulation included',
     'The files a run leaves, read back, hold what it recorded: the file of metrics has a line for every round, numbered from 0, with the values of '
     'the requested metrics under their names, in full precision; the final-state files and the list of experiments hold the final state. The saved '
     'simulation object can be loaded and is the simulation at its end: the same parameters, agents with their strategies, pools with their '
     'delegators, rankings, record and random generator, connected in the same way, so that it yields the same metrics and goes on as the '
     'original would.',
     ['inputs', 'histories'], 'any pledges, margins, stakes and delegations of up to three pools; all histories of up to three rounds of two agents',
     'The tests write no files and load none.',
     [('files', SIM + ':export_metrics_file, export_pools_file, export_agents_file, save_model_state_pkl'), ('writers', HLP + ':export_csv_file, export_json_file, write_to_csv'),
      ('rankings', SIM + ':pool_comparison_key_myopic')])
prop('C35', 'A move changes what it is planned to change, and nothing else',
     'When an agent carries out a move, all stakes and costs stay as they are. Pools of others keep owner, pledge, cost, margin, privacy and the '
     'delegations of everybody but the mover. The mover runs exactly the planned pools, with the planned pledges, costs and margins, and '
     'delegates the planned amounts. A pool that is kept keeps its delegators unless it turns private, a new one starts without any under an id '
     'that was never used. Strategies and pending plans of others stay as they are, but for delegations to pools that are closed or turn private.',
     ['inputs', 'histories', 'schedules'], 'any consistent state with up to two pools of three agents, any move; all orders of a (semi)simultaneous round',
     'The tests make a few moves in one small state.',
     [('moves', STK + ':execute_strategy, update_pool, open_pool, close_pool, remove_delegations'), ('ids', SIM + ':get_next_pool_id'),
      ('delegations', 'logic/pool.py:update_delegation')])
prop('C36', 'An equilibrium that is reported is one',
     'When a run has ended and reports an equilibrium of its last phase, no agent would move: every agent, asked again in the final state, stays with its '
     'strategy. An equilibrium of the last phase is on record exactly if the run says that it converged.',
     ['histories', 'schedules'], 'whole runs of myopic and non-myopic agents for a continuous range of costs, and of agents that judge the state in any way; every activation order',
     'A run samples one history; that it stopped where nobody wants to move is a statement on all agents at the end of every history.',
     [('convergence', SIM + ':step, has_converged'), ('decisions', STK + ':update_strategy'), ('profiles', 'logic/stakeholder_profiles.py')])

NOT_APPLICABLE = {}

CODE = ('bounded symbolic execution of the current source: AST-instrumented Python, inputs as z3 terms, every feasible path explored, each '
        'assertion discharged by z3 over all inputs of its path')
NOTE = ('Holds for every input within the bounds listed in the evidence file (per harness), over exact real arithmetic with a stated '
        'tolerance; counterexamples are replayed on the unmodified code before they are reported. Trusted: z3, CPython, the '
        'instrumentation and builtin models (cross-checked by replaying path models on the unmodified code).')
LEVEL_NOTES = {
    'C33': 'Files are real files in a scratch folder; a crash is possible before every operation on a file (what was not flushed is lost), and '
           'the workers of a batch are threads that take turns at such operations, in an order the solver chooses. The inputs are discrete: the '
           'solver enumerates histories, crash points and schedules. Two single runs that are started at the same moment are outside. ' + NOTE,
    'C34': 'Files are real files in a scratch folder, written and read by the installed libraries; in them each symbolic number is represented by '
           'a decimal that stands for nothing else. ' + NOTE,
    'C32': 'The drawing library is run as it is, but the pictures are not rendered: what is compared is the content of the figures (lines, '
           'points, bands, cells) when they are saved. Inside it each symbolic number is represented by a concrete one that stands for '
           'nothing else. ' + NOTE,
    'C30': 'The external optimiser (GEKKO / APOPT, a compiled program) is replaced by one that returns the exact optimum of the problem it '
           'is given; what is decided is that the problem is the right one, and what becomes of its solution. ' + NOTE,
    'C25': 'Decimals are modelled as IEEE doubles (z3 floating-point theory), integers as unbounded. ' + NOTE,
    'C07': 'One inductive step: from every consistent state within the bounds, one move of any kind. ' + NOTE,
    'C08': 'One inductive step: from every consistent state within the bounds, one whole round in any order. ' + NOTE,
    'C35': 'One inductive step: from every consistent state within the bounds, one move, or one round in any order. ' + NOTE,
    'C36': 'Whole runs, up to the stated number of rounds; the writers of files are replaced by ones that keep them in memory. ' + NOTE,
    'C09': 'One inductive step from every consistent and correctly ranked state within the bounds. ' + NOTE,
}

FIXED = [
    ('C01', '6c18dd7', 'reward scheme 3 (CIP-7) could not be selected: its constructor required parameters nobody passed'),
    ('C17', '62a571c', 'with inactive stake, the inactive part was handed to the last agent on top of its own'),
    ('C16', 'b811e0a', 'an increase of k in a later phase made agents look past the end of the rankings (IndexError)'),
    ('C08', 'c8f7adb', 'an operator that updated a pool overwrote delegation changes made in the same (semi)simultaneous round'),
    ('C18', '8c6f2f7', 'an automatically chosen seed did not reproduce the run, and simulations of a process shared one generator'),
    ('C25', 'be37551', 'the command line accepted nan and infinities for decimal options'),
    ('C14', '46fa207', 'for k = 49, 98, 103, 107, ... rounding made the (k+1)-th pool count as a top pool'),
    ('C24', '1371719', 'batch results of runs that did not converge were those of the round before the last'),
    ('C16', '7a81a41', 'a known inactive stake fraction was ignored for the k of later phases'),
    ('C15', 'e0e171d', 'idle rounds before a change of phase counted towards the convergence of the next phase'),
    ('C26', 'cc877eb', 'valuing a delegation to a pool that had become unprofitable crashed (AttributeError on an empty ranking position)'),
    ('C25', '33d3a73', 'zero and negative numbers of idle iterations were accepted although only natural numbers are documented'),
    ('C16', 'd3285e3', 'a known inactive stake fraction could lower k by one through rounding (41 of 82 % gave 49 instead of 50)'),
    ('C28', 'e181cfd', 'the batch-run command refused reward scheme 4, which it documents'),
    ('C28', '6046af7', 'the batch-run command ignored the given weights of the agent profiles'),
    ('C01', 'bd7e05e', 'myopic agents crashed (division by zero) under CIP-50 with a0 = 0, where pools are saturated at zero stake'),
    ('C17', '69d28bb', 'of stakes separated by commas in a distribution file (the documented format) only the first of each line was read'),
    ('C33', 'b4af892', 'batch runs that vary many parameters failed because the names of their files were too long'),
    ('C33', '2eabaf6', 'a run interrupted while the serial number was written kept every later run from starting'),
    ('C33', '9912ced', 'parallel executions of a batch could each write the header of a file they share'),
    ('C34', '9ecb629', 'the saved simulation object of a run with pools could not be loaded'),
    ('C17', '632a4f3', 'the disparity distribution divided by zero for three agents and was uneven for two'),
]


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    checks = []
    for p in P:
        i = p['id']
        if i in NOT_APPLICABLE:
            continue
        checks.append({'property': i, 'quick_cmd': '%s vf/run.py %s' % (PY, i), 'thorough_cmd': '%s vf/run.py %s --tier thorough' % (PY, i),
                       'technique': CODE, 'level': 'model_checking', 'level_note': LEVEL_NOTES.get(i, NOTE)})
    manifest = {'version': 1, 'setup_cmd': '%s vf/setup_check.py' % PY, 'checks': checks,
                'not_applicable': [{'property': k, 'reason': v} for k, v in NOT_APPLICABLE.items()],
                'notes': 'No hooks: the source is instrumented in memory when a check imports it. VF_JOBS sets the number of worker '
                         'processes (8). A check prints INCONCLUSIVE lines (and evidence says exhaustive: false) where the solver or '
                         'the time budget did not decide everything; on the committed tree every quick check is exhaustive.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')
    with open(os.path.join(HERE, 'known-findings.json'), 'w') as f:
        json.dump([{'property': p, 'status': 'fixed', 'commit': c, 'text': 'fixed: property=%s %s %s' % (p, c, what)} for p, c, what in FIXED],
                  f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
