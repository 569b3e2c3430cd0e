SBT = "TLA+ specification of the storyboard engine (Storyboard.tla): TLC checks the guarantee on small storyboards for every environment choice (StoryboardMC.tla), and TLC replays recorded esmini runs of generated scenarios against it (StoryboardTrace.tla)"
SBN = "exhaustive on the small shapes for the specification; every state-change and condition notification, variable, time and quit flag of each recorded run must equal the specification's"
SBO = ["storyboard element state-change callback", "condition callback", "variable values", "simulation time", "quit flag"]
PROPS += [
 P("P01", "Storyboard elements follow their life cycle, nested and propagated",
   "Every storyboard element only moves along standby, running and complete in the order of the OpenSCENARIO life cycle, and it runs only while the element that contains it runs. An element whose children have all completed completes too (an event or maneuver group with executions left returns to standby instead), and while an element is complete nothing below it runs. Observers are told of each change of state once, in the order of the changes.",
   ["programs", "histories", "inputs"], "all storyboards (any tree of stories, acts, groups, maneuvers, events and actions), all sequences of time steps and external variable changes",
   "unit and smoke tests replay a few dozen fixed scenarios with fixed time steps; they never vary tree shape, simultaneous triggers, re-execution or step sizes together",
   [SE + "StoryboardElement.cpp", SE + "StoryboardElement.hpp", SE + "Storyboard.cpp", SE + "ScenarioEngine.cpp"],
   [("state transitions and propagation from children", SE + "StoryboardElement.cpp Start/Stop/End/PropagateStateFromChildren"), ("storyboard frame", SE + "ScenarioEngine.cpp step"), ("event start", SE + "Storyboard.cpp Event::Start")],
   SBO, SBT, SBN),
 P("P02", "Event priority decides what happens to running sibling events",
   "When an event with priority override starts, every other running event of the same maneuver is ended before it runs. An event with priority skip does not start while any event of its maneuver runs, and one with priority parallel starts without disturbing the others.",
   ["programs", "histories"], "all maneuvers, all orders and coincidences of event triggers, all mixes of priorities and execution counts",
   "tests contain a handful of two-event maneuvers; the outcome depends on which events are running when a trigger fires, on document order and on events that still have executions left",
   [SE + "Storyboard.cpp", SE + "StoryboardElement.cpp"], [("priority handling at event start", SE + "Storyboard.cpp Event::Start"), ("ending a running event", SE + "StoryboardElement.cpp End")],
   SBO, SBT, SBN),
 P("P03", "Events and maneuver groups run as often as their execution count allows",
   "Within one execution of its maneuver group an event runs at most as many times as its maximum execution count, and a maneuver group at most as many times as its own. As long as executions remain an ended event or group goes back to standby and can be triggered anew, with everything inside it (counts and triggers included) as at the first time; when they are used up it is complete and never runs again.",
   ["programs", "histories"], "all combinations of event and group execution counts, actions of any kind, and trigger histories",
   "tests use counts of 1 to 3 on single events; re-execution of nested counts and re-armed edges or delays over many rounds is not sampled",
   [SE + "StoryboardElement.cpp", SE + "StoryboardElement.hpp", OT + "OSCCondition.cpp"], [("execution counting and re-arming", SE + "StoryboardElement.cpp End/Reset/Start"), ("trigger reset", OT + "OSCCondition.cpp Trigger::Reset")],
   SBO, SBT, SBN),
 P("P04", "Triggers fire exactly when their condition groups say so",
   "A trigger is true in a frame exactly when in at least one of its groups every condition is true; a condition has the truth value its rule, its edge (none, rising, falling, either) and its delay give it for the values it was shown while its element waited. An element in standby starts in the first frame in which its trigger is true and not before, an event or act without a trigger starts with its parent, and the same rising or falling change is never used again after a trigger has fired on it.",
   ["inputs", "histories", "programs"], "all condition group structures, edges, delays and comparison rules, and all histories of values and time steps",
   "tests check single conditions at a few time points; combinations of several groups, edges, delays and irregular time steps (including repeated time stamps) are unbounded",
   [OT + "OSCCondition.cpp", OT + "OSCCondition.hpp", SE + "StoryboardElement.cpp"], [("condition evaluation with edge and delay history", OT + "OSCCondition.cpp OSCCondition::Evaluate, ConditionDelay"), ("trigger evaluation", OT + "OSCCondition.cpp Trigger::Evaluate, ConditionGroup::Evaluate"), ("trigger polling", SE + "StoryboardElement.cpp UpdateState")],
   SBO, SBT, SBN),
 P("P05", "Stop triggers end everything below them and nothing else",
   "In the frame in which the stop trigger of a running act or of the storyboard becomes true, that element and every element below it that has started waiting or running is complete, and none of them runs or changes state again. Elements outside it are unaffected; when the storyboard itself is stopped the simulation reports that it wants to quit and simulation time stands still from then on, and without a storyboard stop trigger the storyboard never ends by itself.",
   ["programs", "histories"], "all storyboards with stop triggers on acts and on the storyboard, all moments at which they become true (before start, in the initial frame, together with start triggers or ends)",
   "tests stop a few scenarios at one fixed time; coincidence of stop with start, end, re-execution or the initial frame is not sampled",
   [SE + "StoryboardElement.cpp", SE + "ScenarioEngine.cpp", SE + "Storyboard.cpp"], [("stop propagation", SE + "StoryboardElement.cpp Stop"), ("storyboard completion and quit flag", SE + "ScenarioEngine.cpp step")],
   SBO, SBT, SBN),
 P("P06", "Element-state conditions see every state and transition of their element",
   "A condition on the state of another storyboard element is true when that element is in the named state, or has been in it or made the named transition since the condition was last evaluated, even if it has moved on within the same frame; a transition counts once. It is false otherwise.",
   ["programs", "histories"], "all references between storyboard elements, all states and transitions, all evaluation orders within a frame",
   "tests chain a few events with completeState or startTransition; short-lived states, instant actions and references against document order are not sampled",
   [OT + "OSCCondition.cpp", SE + "StoryboardElement.cpp", SE + "ScenarioReader.cpp"], [("registration of state changes with watching conditions", SE + "StoryboardElement.cpp SetState"), ("state condition", OT + "OSCCondition.cpp TrigByState")],
   SBO, SBT, SBN),
 P("P07", "At most one action controls an entity's longitudinal or lateral motion",
   "At any time at most one running action controls the longitudinal and at most one the lateral domain of an entity. Starting an action ends every running action on the same entity whose domains overlap its own, including actions of other events, acts and of the initialisation; actions on other entities or on the other domain are not disturbed.",
   ["programs", "histories"], "all combinations of private actions on all entities, with all start orders and overlaps",
   "tests contain a few conflicting pairs; which actions are running when a new one starts, for which entity and from which part of the storyboard, is unbounded",
   [SE + "Storyboard.cpp", OT + "OSCPrivateAction.hpp", OT + "OSCPrivateAction.cpp"], [("conflict resolution at action start", SE + "Storyboard.cpp Event::Start / ScenarioEngine"), ("domain masks of action types", OT + "OSCPrivateAction.hpp")],
   SBO, SBT + "; Domains.tla does the same for all kinds of private actions", SBN),
 P("P08", "Entities move as their speed says and speed actions shape it",
   "In every frame an entity under default control advances along its lane by exactly its speed times the frame time, in its driving direction, and its travelled distance grows by the same amount. Its speed changes only while a speed action acts on it; the action takes it from the speed at the start to the (absolute or relative) target along the requested shape over the requested time, distance or rate, within the entity's speed and acceleration limits and without overshoot, it ends in the frame the target is reached, and it does the same at every execution.",
   ["inputs", "histories", "programs"], "all sets of entities, limits, speed actions (shape, dimension, target kind), start moments, re-executions and frame times",
   "tests follow single actions with one frame time and compare a few samples; interrupting one action by another, relative targets that move, zero or uneven frame times and repeated execution are not sampled",
   [OT + "OSCPrivateAction.cpp", OT + "OSCPrivateAction.hpp", SE + "ScenarioEngine.cpp", SE + "Entities.cpp"], [("speed transition", OT + "OSCPrivateAction.cpp LongSpeedAction, TransitionDynamics"), ("default control", SE + "ScenarioEngine.cpp defaultController")],
   ["SE_GetObjectState", "SE_GetObjectOdometer", "storyboard element state-change callback"],
   "TLA+ specification of longitudinal motion in integer units (Motion.tla): TLC checks kinematics, limits and target invariants (MotionMC.tla) and replays recorded runs of generated scenarios against it (MotionTrace.tla)",
   "speeds and positions within 24/4096 of the specification in every frame, action states exactly"),
 P("P09", "Parameters and variables hold the last type-correct value written",
   "Every declared parameter and variable always has the value most recently written to it, by its declaration (which may refer to another parameter), by the application while declarations are read or at any later time, or by a set, add or multiply action; a write or read with an undeclared name or another type is refused and changes nothing. Parameters and variables of the same name are different things, a read changes nothing, and a condition on a parameter or variable is true exactly when the rule holds for its current value and type.",
   ["histories", "inputs", "programs"], "all declarations of all types, all sequences of reads, writes, actions and condition evaluations",
   "tests set a handful of values once; mixing types, name clashes, overriding before use by other declarations and interleaving of API and scenario writes are not sampled",
   [SE + "Parameters.cpp", OT + "OSCGlobalAction.cpp", OT + "OSCCondition.cpp", LIB + "esminiLib.cpp"], [("store", SE + "Parameters.cpp"), ("actions", OT + "OSCGlobalAction.cpp ParameterSetAction, VariableSet/Add/MultiplyAction"), ("conditions", OT + "OSCCondition.cpp TrigByParameter, TrigByVariable"), ("API", LIB + "esminiLib.cpp SE_SetParameter..., SE_GetVariable...")],
   ["SE_Get/SetParameter*, SE_Get/SetVariable*", "condition callback"],
   "TLA+ specification of the two typed stores (Values.tla): TLC checks it exhaustively on a small instance (ValuesMC.tla) and replays recorded operation sequences against it (ValuesTrace.tla)",
   "every return code and every stored value compared after every operation"),
 P("P10", "World, road and lane coordinates of a position always agree",
   "However a position is set (by lane and offset, by road and lateral distance, or by world coordinates and heading), afterwards its road, s, lane, lane offset, x, y, z and heading describe the same point of the loaded road network, namely the one asked for, independent of what the position was before. A lane that does not exist or an s beyond the road is refused, each position handle is independent of the others, handles that do not exist are refused, and roads, junctions and lanes are found under the identifiers, lengths, types and widths that the road description gives them. This holds on straight, bent (arc, spiral, polynomial), sloped and banked roads, whose reference line, elevation, pitch, roll and curvature are those of the description.",
   ["inputs", "histories"], "all road networks (geometries, lane sections, widths, lane offsets, elevation and banking, reversed roads, junctions), all sequences of operations on position handles",
   "tests place positions on a few hand-picked roads; agreement must hold for every cross section and every previous state of the position object, which caches indices",
   [RM + "RoadManager.cpp", RM + "RoadManager.hpp", RML + "esminiRMLib.cpp"], [("setting a position", RM + "RoadManager.cpp Position::SetLanePosMode, SetTrackPosMode, XYZ2TrackPos"), ("conversions", RM + "RoadManager.cpp Track2Lane, Lane2Track, Track2XYZ"), ("cross section", RM + "RoadManager.cpp LaneSection::GetWidth, GetCenterOffset, GetClosestLaneIdx"), ("API", RML + "esminiRMLib.cpp RM_Set...Position, RM_GetPositionData")],
   ["RM_GetPositionData", "RM_Get... of roads and lanes", "return codes"],
   "TLA+ specification of road networks and positions in integer units (RoadNet.tla, RoadPos.tla): TLC checks round trips and additivity for all positions of small networks (RoadPosMC.tla) and replays recorded operation sequences on generated networks (RoadPosTrace.tla); the surface of bent, sloped and banked roads is specified as a fixed-point integration of the curvature (Curve.tla, checked in CurveMC.tla, replayed in CurveTrace.tla)",
   "every field of every position within 3/1024 m, roads, lanes, headings and return codes exactly"),
 P("P11", "Moving along the road network follows lanes and links and loses no distance",
   "Moving a position along its lane advances it by exactly the requested distance in its direction, across any number of lane sections, roads and junctions, ending in the lane that the lane links lead to, with unchanged offset and heading relative to its direction of travel; one long move is the same as several short ones. At a junction it takes the way that best fits the requested direction (any of them if the choice is free), and where no way leads on it stops at the end of the road and says so. Looking ahead or back (in the direction of the heading, or in driving direction if asked for) reports the point such a move would reach, with its lane width, lane type, speed limit and position relative to the looking one, and moves nothing.",
   ["inputs", "histories", "configurations"], "all road networks, start positions, distances forwards and backwards, junction selections and sequences of moves",
   "tests move along a few fixed routes with small steps; lanes renumbered between sections, roads linked head to head, several links in one step and backward entry into junctions combine without bound",
   [RM + "RoadManager.cpp", RML + "esminiRMLib.cpp"], [("moving", RM + "RoadManager.cpp Position::MoveAlongS, MoveToConnectingRoad"), ("lane links", RM + "RoadManager.cpp Road::GetLaneInfoByS, LaneSection::GetConnectingLaneId"), ("junction connections", RM + "RoadManager.cpp Junction::GetRoadConnectionByIdx, OpenDrive::CheckJunctionConnection"), ("look ahead", RM + "RoadManager.cpp Position::GetProbeInfo; " + RML + "esminiRMLib.cpp RM_GetLaneInfo")],
   ["RM_PositionMoveForward", "RM_GetPositionData", "RM_GetLaneInfo", "return codes"],
   "TLA+ specification of movement over lane, road and junction links (RoadNet.tla): TLC checks it for all positions and distances of small networks (RoadPosMC.tla) and replays recorded moves on generated networks (RoadPosTrace.tla)",
   "every field of every position within 3/1024 m, roads, lanes, headings and return codes exactly"),
 P("P12", "Distances between positions are those along the road network",
   "The difference between two positions is the length of the shortest way from the first to the second along the linked lanes and roads, positive when the second lies ahead in the heading of the first and negative behind it, together with the difference in lanes and lateral distance as seen after following the first position's lane to the second one. It is measured across any number of lane sections, roads and junctions, is the same length in both directions, and where no way connects the positions this is reported; measuring changes neither position.",
   ["inputs", "configurations"], "all pairs of positions on all road networks (lane sections, renumbered lanes, roads linked in either direction, junctions)",
   "tests measure a few pairs on hand-made roads; which lane a lane becomes on the other road, and from which end a road is entered, depends on every link in between",
   [RM + "RoadManager.cpp", RML + "esminiRMLib.cpp"], [("difference", RM + "RoadManager.cpp Position::Delta"), ("path search", RM + "RoadManager.cpp RoadPath::Calculate"), ("lane along a road", RM + "RoadManager.cpp Road::GetConnectedLaneIdAtS"), ("API", RML + "esminiRMLib.cpp RM_SubtractAFromB")],
   ["RM_SubtractAFromB", "RM_GetPositionData"],
   "TLA+ specification of ways through the network (RoadNet.tla Ways, Between): TLC checks that movement and distance agree for all positions of small networks (RoadPosMC.tla Measured) and replays recorded measurements on generated networks (RoadPosTrace.tla)",
   "distances within 3/1024 m, lane differences and return codes exactly"),
 P("P13", "Entity conditions are true exactly when what they describe is the case",
   "In every frame each entity condition (distance and relative distance, time headway, time to collision, reach position, speed, relative speed, acceleration, standstill, off road, end of road, traveled distance, collision, heading angle, relative clearance) has the value that the current positions, headings, bounding boxes and speeds of the entities give it, in the coordinate system, distance type and free space mode asked for, compared by its rule. With several triggering entities the rule any needs one and the rule all needs every one of them; no entity's value depends on the other ones, on the order in which they are listed or on earlier frames (except for durations and traveled distances, which accumulate exactly).",
   ["inputs", "histories", "configurations"], "all placements and motions of entities of any size, all parameters of the conditions and sets of triggering entities",
   "tests evaluate a few conditions for one triggering entity in fixed scenes; combinations of rule, coordinate system, free space, heading, order of entities and frames are unbounded",
   [OT + "OSCCondition.cpp", SE + "Entities.cpp"], [("conditions", OT + "OSCCondition.cpp TrigBy*::CheckCondition, EvaluateRule"), ("distances", SE + "Entities.cpp Object::Distance, FreeSpaceDistance*, Collision, OverlappingFront"), ("standstill, off road and end of road", SE + "Entities.cpp Object::SetEndOfRoad, SetOffRoad, SetStandStill")],
   ["condition callback"],
   "TLA+ specification of the value of every entity condition (Cond.tla): TLC checks relations between conditions for all placements of a small world (CondMC.tla) and replays the condition values recorded in every frame of generated scenes (CondTrace.tla)",
   "every condition of every frame exactly, except where the quantity is undetermined (exact ties)"),
 P("P14", "Lane changes and lane offsets follow their shape and end exactly where asked",
   "A lane change leads from wherever the entity is to the given offset in the target lane, which is given by its id or counted from the lane of another entity as seen in that entity's driving direction, without counting the centre lane. In every frame the lateral position is the one that the shape (step, linear, sinusoidal, cubic) gives for the elapsed time or distance, or for the given rate; what is driven per frame, sideways and along the road together, is speed times time, and the entity heads where it moves. A lane offset action does the same within the lane, in the time that the maximum lateral acceleration gives. The action ends exactly when the target is reached, with the entity aligned with the road; it is never overshot, a new lateral action continues from where a replaced one left the entity, and speed, driving direction and other entities are not affected.",
   ["inputs", "histories"], "all lane layouts, start positions, speeds (including standstill and reversing), shapes, dimensions and targets, all sequences of actions and time steps",
   "tests run a few lane changes with fixed parameters and check some positions; interrupted changes, reversing, slow or standing entities, opposite lanes and odd time steps are not sampled",
   [OT + "OSCPrivateAction.cpp", OT + "OSCPrivateAction.hpp", SE + "ScenarioEngine.cpp"], [("lane change", OT + "OSCPrivateAction.cpp LatLaneChangeAction::Start/Step"), ("lane offset", OT + "OSCPrivateAction.cpp LatLaneOffsetAction::Start/Step"), ("shapes", OT + "OSCPrivateAction.cpp TransitionDynamics"), ("longitudinal part", SE + "ScenarioEngine.cpp defaultController, prepareGroundTruth")],
   ["SE_GetObjectState", "storyboard element state-change callback"],
   "TLA+ specification of lateral motion (Lateral.tla): TLC checks it for all sequences of actions and frames of a small instance (LateralMC.tla) and replays recorded runs of generated scenarios against it (LateralTrace.tla)",
   "speed, lane and running actions exactly, positions within 1/100 m and direction within 0.01 in every frame"),
 P("P15", "Reported states of entities show at once, and derived ones follow",
   "Every object added through the library gets a new id that is never given to another one, and is listed, found by its id and name, and part of the simulation until it is deleted; after that every call for its id fails and changes nothing. A reported position (world, road, lateral), speed, velocity, acceleration, angular rate or wheel status is what the object shows immediately and at the end of the frame; a report concerns that object only. In a frame, an object under external control stays where it was reported; one under default control moves on along its lane by speed times time, unless its position was reported. Velocity, speed, acceleration and angular rate that were not reported follow from the motion of the frame, and the odometer grows by the distance moved, except that a newly added or teleported object has not moved. Entities that the scenario deletes and adds again leave and re-enter the simulation with the same id. A callback registered for an object is called once per frame, with that object's state and its own user data.",
   ["histories", "inputs"], "all sequences of adding, deleting, reporting, callback registrations, scenario add/delete actions and frames, all reported values and time steps",
   "tests add one or two objects and report a few states; sequences with deletions, mixed reports, several callbacks, zero time steps and re-added entities are not sampled",
   [LIB, SE + "Entities.cpp", SE + "ScenarioEngine.cpp", OT + "OSCGlobalAction.cpp", "EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp"], [("reports", LIB + " SE_ReportObject*, SE_AddObject, SE_DeleteObject, SE_RegisterObjectCallback"), ("registry", SE + "Entities.cpp Entities::addObject/activateObject/deactivateObject/removeObject"), ("derived values", SE + "ScenarioEngine.cpp prepareGroundTruth, defaultController"), ("add and delete actions", OT + "OSCGlobalAction.cpp AddEntityAction, DeleteEntityAction")],
   ["SE_GetObjectState", "SE_GetNumberOfObjects", "SE_GetId", "SE_GetIdByName", "SE_GetObjectVelocityGlobalXYZ", "SE_GetObjectAccelerationGlobalXYZ", "SE_GetObjectAngularVelocity", "SE_GetObjectOdometer", "object callback"],
   "TLA+ specification of the entity registry and of reported and derived states (Registry.tla): TLC checks it for all sequences of a small instance (RegistryMC.tla) and replays recorded runs of generated call sequences against it (RegistryTrace.tla)",
   "ids, lists, names, results, lanes and reported values exactly, derived values within rounding, after every call"),
 P("P16", "A parameter means its innermost declaration, an expression its value",
   "Every attribute of a scenario that refers to a parameter, or holds an expression over parameters, takes the value which arithmetic, comparison, logic, functions and string concatenation give for the parameters visible at its place: the innermost declaration around it (maneuver, story, entity, controller, environment, trajectory, route, catalog entry, or the scenario itself), whatever other declarations of the same or similar names the document has elsewhere. The declarations of a scope end with it. An entry of a catalog takes the values that the reference assigns to its parameters and its own defaults for the others, evaluated in the place of the reference and without effect on anything else. A value that the application sets for a parameter of the scenario before it is loaded reaches everything that refers to it. Operators bind in the usual order, in whatever notation (names or symbols, spacing, brackets).",
   ["programs", "inputs", "configurations"], "all trees of scopes, declarations, shadowing, catalog references with assignments, application overrides, and all expressions over them",
   "tests evaluate a few expressions and one level of scopes; which declaration a name refers to depends on everything that was read before it",
   [SE + "Parameters.cpp", SE + "simple_expr.c", SE + "ScenarioReader.cpp"], [("scopes", SE + "Parameters.cpp addParameterDeclarations, CreateRestorePoint, RestoreParameterDeclarations"), ("expressions", SE + "Parameters.cpp ReadAttribute, ResolveParametersInString; simple_expr.c"), ("catalog references", SE + "ScenarioReader.cpp ResolveCatalogReference; Catalogs.cpp")],
   ["SE_GetParameter*, SE_GetVariable*", "SE_GetObjectState", "SE_GetObjectPropertyValue", "storyboard element state-change callback"],
   "TLA+ specification of scopes and of the value of expressions (Params.tla): TLC checks scope invariants for all small sequences of scopes (ParamsMC.tla) and replays the values observed from generated documents (ParamsTrace.tla)",
   "every observed value exactly (numbers are multiples of 1/64)"),
 P("P17", "A parameter distribution runs every combination of values exactly once",
   "A parameter value distribution stands for all combinations of the alternatives of its dimensions (value sets, single values, ranges with both ends), in the order in which the last dimension varies fastest. Starting runs one after the other goes through every combination once, with exactly the assigned values in the scenario's parameters and the declared values in all others, where a later assignment of the same parameter wins; recordings carry the number of the combination. A selected combination is the one that runs next, an index out of range or a faulty distribution file is refused with nothing left of it, loading another distribution replaces the previous one, and after a reset scenarios run with their declared values.",
   ["inputs", "histories", "configurations"], "all distribution files (also faulty ones) and all sequences of loading, selecting, resetting and running",
   "tests sweep one fixed file; the mapping from index to combination, and what is carried from one run to the next in the process-wide distribution, depend on every file and sequence",
   [OT + "OSCParameterDistribution.cpp", SE + "ScenarioReader.cpp", "EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp", LIB], [("combinations", OT + "OSCParameterDistribution.cpp Load, GetNumPermutations, GetParameterEntry"), ("application to the scenario", SE + "ScenarioReader.cpp loadOSCFile"), ("choice of the combination", "EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp ScenarioPlayer::Init"), ("API", LIB + " SE_SetParameterDistribution, SE_SelectPermutation, SE_GetPermutationIndex")],
   ["SE_GetNumberOfPermutations", "SE_GetPermutationIndex", "SE_GetParameter*", "return codes", "names of recordings"],
   "TLA+ specification of distributions and runs (Dist.tla): TLC checks it for all sequences of calls on small distributions (DistMC.tla) and replays recorded sequences on generated files (DistTrace.tla)",
   "every return code, number, index and parameter value exactly"),
 P("P18", "A recording replays what the simulation was, frame by frame",
   "A recording (.dat) of a run holds exactly its frames: the replay shows the same times in the same order from the first to the last, and at any time the state (presence, position, orientation, road coordinates, speed, wheels, box, type, visibility, lights once they were used) that every object had in the latest frame not after that time, for every history of objects entering, leaving and not changing, for changing and zero time steps, and independently of the times looked at before. State changes of storyboard elements appear with their time, in order, none lost or added. The table written by dat2csv lists the same states. Moving in the replay stays within its start and stop times; going to a time gets there, stepping visits every frame without skipping one, forth and back, and with repeat on it goes round.",
   ["histories", "inputs"], "all histories of frames with any time steps, changes of objects, and all sequences of replay operations",
   "the recording stores differences and omits times, so what is shown depends on the whole history before and on the operations before; tests replay a few files from start to end",
   ["EnvironmentSimulator/Applications/replayer/Replay.cpp", "EnvironmentSimulator/Applications/replayer/Replay.hpp", SE + "PacketHandler.cpp"], [("writing", SE + "PacketHandler.cpp DatWriter"), ("reading", "Replay.cpp ParsePackets, FillInTimestamps"), ("showing", "Replay.hpp Timeline, Replay.cpp GetReplayEntryAtTimeIncremental"), ("moving", "Replay.cpp GoToTime, GoToNextFrame, GoToPreviousFrame, SetStartTime, SetStopTime")],
   ["the replay's timestamps and object states (class Replay as the replayer uses it)", "dat2csv output", "SE_GetObjectState during the recorded run"],
   "TLA+ specification of recordings and replay positions (Record.tla): TLC checks it for all small histories and moves (RecordMC.tla) and replays recorded runs of the simulation, the replay and dat2csv against it (RecordTrace.tla)",
   "all values within 1/10000 of what the running simulation showed, times within 2 microseconds"),
 P("P19", "A run is the same whatever ran before it; without one, calls are refused",
   "Scenarios can be loaded, run to any point, closed or replaced by another one in a process, in any order and by any of the initialisation calls. Each run shows in every frame (times, all object states, collisions, state changes of storyboard elements, parameters and variables) exactly what the same scenario with the same inputs and seed shows in a fresh process; nothing of earlier runs, loads that failed, or calls in between shows through. Loading a missing or broken scenario is reported and leaves no run behind. Every step returns. While there is no run, and for objects, wheels or properties that do not exist, every call is refused with its documented error value, without effect on anything.",
   ["histories", "inputs", "programs"], "all sequences of loading, stepping with any time steps and inputs, closing and asking, over all shipped and generated scenarios and broken ones",
   "tests run in a process per suite and never compare a run with the same run in a fresh process; leftovers in static and global state show only in particular orders",
   [LIB + "esminiLib.cpp", "EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp", SE + "ScenarioEngine.cpp"], [("life of a run", LIB + "esminiLib.cpp InitScenario, resetScenario, SE_Close"), ("process-wide state", "CommonMini.cpp SE_Env, RoadManager.cpp OpenDrive"), ("refusals", LIB + "esminiLib.cpp getObjectById and its users")],
   ["every SE_Get... call", "storyboard element state-change callback", "return codes"],
   "TLA+ specification of sessions (Session.tla): TLC checks it for all orders of calls (SessionMC.tla) and replays recorded sessions against it, each run being compared with its own fresh process (SessionTrace.tla)",
   "digest of all visible values of every frame exactly (1e-5), every return value of 61 refused calls"),
 P("P20", "An entity on a trajectory is where its speed or its timing says",
   "An entity that follows a polyline trajectory is on its line, from the initial distance offset on. Without time reference it moves along it as far as its speed takes it in each frame, in the direction its heading and the sign of its speed give. With one it is at the point that belongs to the (scaled, shifted, relative or absolute) time: at each vertex at the vertex's time, with constant speed in between in position mode and constant acceleration in follow mode (stopping early rather than turning back), standing still where the vertices do; its speed is the distance it makes per time, negative when it faces backwards. It faces along the line, or as the vertices say, turning gradually at corners. At the end (or, going backwards, the start) the action ends, the entity having moved no farther than its speed takes it in that frame (with time reference: the rest of the frame straight on at its speed), and it then drives on along the road. Trajectories started later and, for timed ones, speed actions take over; other entities are not affected.",
   ["inputs", "histories", "programs", "configurations"], "all polylines, times, headings, positions relative to entities, time references, following modes, offsets, speeds and time steps, and all moments at which actions start",
   "tests follow a dozen fixed trajectories and compare a few sampled positions; the combination of reversing, offsets, scaling, stand-still phases and the fraction of a frame in which the end falls is not sampled",
   [OT + "OSCPrivateAction.cpp", RM + "RoadManager.cpp", SE + "ScenarioReader.cpp"], [("following", OT + "OSCPrivateAction.cpp FollowTrajectoryAction"), ("layout and evaluation", RM + "RoadManager.cpp PolyLineShape::CalculatePolyLine, Evaluate; PolyLineBase::EvaluateSegmentByLocalS"), ("vertex filter", RM + "RoadManager.cpp PolyLineShape::FinalizeVertices")],
   ["SE_GetObjectState (x, y, h, speed)", "storyboard element state-change callback"],
   "TLA+ specification of trajectories (Traj.tla): TLC checks it on small trajectories for all moments at which actions start (TrajMC.tla) and replays recorded runs of generated scenarios against it (TrajTrace.tla)",
   "positions within 3 mm, headings within 0.14 degrees, speeds and action states of every frame"),
 P("P21", "Each entity and domain has at most one controller; scenario actions respect it",
   "At most one controller is active per entity and domain (longitudinal, lateral), and only controllers assigned to the entity. Assigning or activating one switches exactly the domains that the action mentions: on makes this controller active there and takes the domain from any other controller of the entity (before OpenSCENARIO 1.3 the other one is deactivated altogether), off deactivates it, and not mentioned leaves it as it was; the longitudinal and the lateral attribute are not mixed up. Without a reference the most recently assigned controller is meant; assigning the default controller disconnects all. While an overriding controller is active on a domain, the scenario's actions (speed, lane offset, and the default motion along the road) do not affect the entity on that domain - it moves only as reported - and running ones end; after deactivation it drives on from where it is, with the speed it has, without jumping, and actions have their effect again. Controllers in additive mode, on other domains, or of other entities take nothing away.",
   ["histories", "configurations", "programs"], "all sets of controllers with modes, all orders and moments of assign, activate, speed and lane offset actions and reports, scenario versions before and from 1.3",
   "tests cover a handful of fixed assign/activate sequences; the state is a relation of controllers, domains and modes whose transitions depend on the whole history",
   [OT + "OSCPrivateAction.cpp", SE + "Entities.cpp", "EnvironmentSimulator/Modules/Controllers/Controller.cpp"], [("assign and activate", OT + "OSCPrivateAction.cpp AssignControllerAction, ActivateControllerAction"), ("active domains", "EnvironmentSimulator/Modules/Controllers/Controller.cpp Activate, DeactivateDomains"), ("assigned controllers", SE + "Entities.cpp AssignController, UnassignControllers, IsControllerModeOnDomains")],
   ["SE_GetObjectState (x, y, speed, ctrl_type)", "SE_ReportObjectPosXYH", "storyboard element state-change callback"],
   "TLA+ specification of assigned and active controllers per domain (Control.tla): TLC checks all orders of actions on a small instance (ControlMC.tla) and replays recorded runs of generated scenarios against it (ControlTrace.tla)",
   "positions and speeds within 1.5 mm (/s), controller flag and action states of every frame"),
 P("P22", "Lights, overrides, visibility and traffic signals show what was last asked for",
   "The lights of a vehicle, the override values of its pedals, steering and gear, its visibility and the lamps of traffic signals are exactly what the light state, override, visibility and traffic signal actions have made of them, and nothing else changes them. A light action without transition time takes effect in the frame in which it starts; with one, the light is lit in between and has the mode and intensity asked for at the first frame at or after the transition time, and the action ends then. A flashing light goes on at once and is lit and dark for its durations in turn until another action takes over. Fog lights mean the front and rear ones, warning lights both indicators; of actions that work on the same lamps the later one takes over and ends the earlier; one indicator puts out the other. A light shines if and only if any of its colour channels does, whatever the colour, and a light that is off or was reset is dark. Override values are limited to their ranges and keep rate, torque, type and gear given with them. Conditions on traffic signals are true exactly while the signal shows that state. All of this is per entity and per signal.",
   ["histories", "programs", "inputs"], "all sequences, overlaps and moments of light (type, mode, intensity, transition and flashing times, colour), override, visibility and traffic signal actions, for all frame times",
   "tests cover single actions at fixed frame times; lamps are shared by several types, actions overlap, and times need not be multiples of the frame time",
   [OT + "OSCPrivateAction.cpp", OT + "OSCGlobalAction.cpp"], [("light states, transitions, flashing, conflicts", OT + "OSCPrivateAction.cpp LightStateAction"), ("overrides", OT + "OSCPrivateAction.cpp OverrideControlAction"), ("visibility", OT + "OSCPrivateAction.cpp VisibilityAction"), ("traffic signals", OT + "OSCGlobalAction.cpp TrafficSignalStateAction, OSCCondition.cpp TrigByTrafficSignal")],
   ["SE_GetObjectLightState / vehicle light list", "SE_GetOverrideActionStatus", "SE_GetObjectState (visibilityMask)", "lamp modes of dynamic signals", "storyboard element state-change callback"],
   "TLA+ specification of lights, overrides, visibility and signals under overlapping actions (Lights.tla): TLC checks all orders of actions on small instances (LightsMC.tla) and replays recorded runs of generated scenarios against it (LightsTrace.tla)",
   "modes, whether each light shines, all override values, visibility, lamps, watching conditions and running events of every frame"),
 P("P23", "Injected actions act like a scenario's own, and are reported while they do",
   "A speed, lane change or lane offset action that the application injects into a running scenario starts in the next frame and then moves the entity exactly as the same action of the scenario would, from the state the entity has at that moment, until its target is reached or another injected action of the same kind for the same entity replaces it; a replaced action has no more effect, also if it had not started. Entities that no action was injected for are not affected. The application is told that an injected action (of any kind, or of a given one) is ongoing from the injection until the last of them has ended or was replaced, and not any longer. Injecting an action for an entity that does not exist changes nothing.",
   ["histories", "inputs"], "all sequences of injections and steps, for all entities, kinds, shapes, dimensions, targets, frame times and limits of the vehicles",
   "tests inject a few actions that do not overlap; here injections hit actions at any moment, several end in one frame, and entities are missing",
   ["EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp", "EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp", SE + "ScenarioEngine.cpp"], [("queue of injected actions, replacement, end", "EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp InjectAction, SE_Inject*"), ("interface", "EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp SE_Inject*, SE_InjectedActionOngoing"), ("what the actions do", OT + "OSCPrivateAction.cpp LongSpeedAction, LatLaneChangeAction, LatLaneOffsetAction")],
   ["SE_GetObjectState", "SE_InjectedActionOngoing", "storyboard element state-change callback"],
   "TLA+ specification of the queue of injected actions over those of longitudinal and lateral motion (Inject.tla, Motion.tla, Lateral.tla): TLC checks all orders of injections and steps on small instances (InjectMC.tla) and replays recorded runs of generated histories against it (InjectTrace.tla)",
   "speed, position, direction and lane of every entity, which actions run and what is reported, after every operation"),
 P("P24", "An entity with a route takes its turns, and the route is the shortest way",
   "A route leads from waypoint to waypoint by the shortest way ahead through the road network; of several waypoints on one road the last one counts, and always the first one of the route. An acquire position action makes such a route from where the entity is to the position. From the frame in which the action is executed on, the entity keeps moving speed times frame time along its lane, and wherever its road branches it continues on the road that the route continues on, if its lane leads there; a newer route replaces the older one. A route with a stretch that the network does not offer is not followed. The length and the roads reported for a route are those of the way. Entities with other routes or without one are not affected.",
   ["programs", "inputs", "configurations"], "all road networks (junctions, rings, several ways between two roads), waypoints, entities, lanes, moments at which routes are given, and frame times",
   "tests follow a few hand made routes; here networks, waypoints and frame times are generated, so that frames skip whole roads, ways of nearly the same length compete and routes are replaced on the way",
   [RM + "RoadManager.cpp", OT + "OSCPrivateAction.cpp"], [("shortest way, waypoints, length", RM + "RoadManager.cpp Route::AddWaypoint, RoadPath::Calculate"), ("turns", RM + "RoadManager.cpp Position::MoveAlongS, Route::GetDirectionRelativeRoad, Junction"), ("actions", OT + "OSCPrivateAction.cpp AssignRouteAction, AcquirePositionAction")],
   ["SE_GetObjectState", "SE_GetNumberOfRoutePoints, SE_GetRoutePoint", "SE_GetRouteTotalLength"],
   "TLA+ specification of routes over the road network (Route.tla, RoadNet.tla): TLC checks that routes arrive, that no way is shorter and that only their entities follow them on a small network (RouteMC.tla), and replays recorded runs of generated networks and routes against it (RouteTrace.tla)",
   "road, lane and s of every entity, length and roads of its route, after every frame"),
 P("P25", "Speed profiles and distance keeping reach what they ask for, within limits",
   "A speed profile in position mode takes the entity's speed linearly from entry to entry: from its speed at the start (or that of a first entry at time 0) each entry's speed is reached exactly when its time has passed, or later if the limits of acceleration and deceleration demand it; an entry without time is reached as fast as they allow. Speeds relative to another entity refer to its speed at the start. The action ends when the last entry is reached, and that speed stays. A longitudinal distance action brings the entity to the distance, or time gap, behind or ahead of the other one (any: on the side where it is at the start, each time the action starts), measured between reference points or, with free space, between the boxes. Without limits that is so at once, with the other one's speed, and remains so; with limits on acceleration, deceleration, their rates and speed it gets there like a critically damped spring within all of them. It ends when the distance is reached, a continuous one only when replaced. Other entities are not affected.",
   ["programs", "histories", "inputs"], "all profiles (entries with and without times, in line, constant, relative), distances, gaps, sides, limits, moments and repetitions of actions, for all frame times",
   "tests look at a few profiles and one distance action each, executed once; the defects found were in combinations: entries without time followed by others, entries in line at the end, actions executed again",
   [OT + "OSCPrivateAction.cpp", OT + "OSCPrivateAction.hpp"], [("profile", OT + "OSCPrivateAction.cpp LongSpeedProfileAction"), ("distance", OT + "OSCPrivateAction.cpp LongDistanceAction"), ("limits", SE + "ScenarioReader.cpp parseDynamicConstraints")],
   ["SE_GetObjectState", "storyboard element state-change callback"],
   "TLA+ specification of speed profiles and distance keeping (Keep.tla): TLC checks corners, limits and kept distances for all orders of actions on a small instance (KeepMC.tla), and replays recorded runs of generated scenarios against it (KeepTrace.tla)",
   "speed and position of every entity and which actions run, after every frame"),
]
