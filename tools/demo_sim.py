# Runs OpenSCENARIO text through the esmini library in /repo/bin (cwd) and records what the callbacks tell.
import ctypes, os, tempfile, atexit, shutil
L = ctypes.CDLL(os.path.join(os.getcwd(), "bin", "libesminiLib.so"))
L.SE_GetSimulationTime.restype = ctypes.c_float
L.SE_StepDT.argtypes = [ctypes.c_double]
ODR = '''<?xml version="1.0"?><OpenDRIVE><header revMajor="1" revMinor="5" name="" version="1" date="" north="0" south="0" east="0" west="0"/>
<road name="" length="5000" id="1" junction="-1"><planView><geometry s="0" x="0" y="0" hdg="0" length="5000"><line/></geometry></planView><elevationProfile/><lateralProfile/>
<lanes><laneSection s="0"><left>%s</left><center><lane id="0" type="none" level="false"/></center><right>%s</right></laneSection></lanes></road></OpenDRIVE>'''
ln = lambda i: '<lane id="%d" type="driving" level="false"><width sOffset="0" a="4" b="0" c="0" d="0"/></lane>' % i
ODR = ODR % ("".join(ln(i) for i in (3, 2, 1)), "".join(ln(i) for i in (-1, -2, -3)))
D = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, D, True)
os.chdir(D)
open("r.xodr", "w").write(ODR)
LOG = []
SCB = ctypes.CFUNCTYPE(None, ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_char_p)
CCB = ctypes.CFUNCTYPE(None, ctypes.c_char_p, ctypes.c_double)
PCB = ctypes.CFUNCTYPE(None, ctypes.c_void_p)
NAMES = {0: "init", 1: "standby", 2: "running", 3: "complete"}


@SCB
def _s(name, ty, st, path):
    LOG.append((name.decode(), NAMES[st]))


@PCB
def _p(u):
    L.SE_RegisterStoryBoardElementStateChangeCallback(_s)


VEH = ('<Vehicle name="car" vehicleCategory="car"><ParameterDeclarations/><BoundingBox><Center x="1.5" y="0" z="0.75"/><Dimensions width="2" length="5" height="1.5"/></BoundingBox>'
       '<Performance maxSpeed="10000" maxAcceleration="100000" maxDeceleration="100000"/><Axles><FrontAxle maxSteering="0.5" wheelDiameter="0.6" trackWidth="1.8" positionX="3.1" positionZ="0.3"/>'
       '<RearAxle maxSteering="0" wheelDiameter="0.6" trackWidth="1.8" positionX="0" positionZ="0.3"/></Axles><Properties/></Vehicle>')
TELE = '<PrivateAction><TeleportAction><Position><LanePosition roadId="1" laneId="-1" offset="0" s="50"/></Position></TeleportAction></PrivateAction>'


def speed(v, dur=0.0):
    return ('<PrivateAction><LongitudinalAction><SpeedAction><SpeedActionDynamics dynamicsShape="linear" value="%g" dynamicsDimension="time"/>'
            '<SpeedActionTarget><AbsoluteTargetSpeed value="%g"/></SpeedActionTarget></SpeedAction></LongitudinalAction></PrivateAction>' % (dur, v))


def setvar(n, v):
    return '<GlobalAction><VariableAction variableRef="%s"><SetAction value="%s"/></VariableAction></GlobalAction>' % (n, v)


USER = '<UserDefinedAction><CustomCommandAction type="nop">x</CustomCommandAction></UserDefinedAction>'


def var(n, v, rule="equalTo", edge="none", delay=0, name="c"):
    return '<Condition name="%s" delay="%g" conditionEdge="%s"><ByValueCondition><VariableCondition variableRef="%s" value="%s" rule="%s"/></ByValueCondition></Condition>' % (name, delay, edge, n, v, rule)


def state(ty, ref, st, edge="none", delay=0):
    return ('<Condition name="s" delay="%g" conditionEdge="%s"><ByValueCondition><StoryboardElementStateCondition storyboardElementType="%s" storyboardElementRef="%s" state="%s"/>'
            '</ByValueCondition></Condition>' % (delay, edge, ty, ref, st))


def trig(tag, *groups):
    return "<%s>%s</%s>" % (tag, "".join("<ConditionGroup>%s</ConditionGroup>" % "".join(g) for g in groups), tag)


def event(name, actions, start, prio="parallel", n=1):
    return '<Event name="%s" priority="%s" maximumExecutionCount="%d">%s%s</Event>' % (
        name, prio, n, "".join('<Action name="%s_a%d">%s</Action>' % (name, i, a) for i, a in enumerate(actions)), start)


def group(name, events, actors=("V1",), n=1):
    return '<ManeuverGroup name="%s" maximumExecutionCount="%d"><Actors selectTriggeringEntities="false">%s</Actors><Maneuver name="%s_m">%s</Maneuver></ManeuverGroup>' % (
        name, n, "".join('<EntityRef entityRef="%s"/>' % a for a in actors), name, "".join(events))


def act(name, groups, start="", stop=""):
    return '<Act name="%s">%s%s%s</Act>' % (name, "".join(groups), start, stop)


def scenario(acts, stop="", variables=("a", "b", "c"), init=None, nobj=2, minor=2, entities="", prop=""):
    return ('<?xml version="1.0"?><OpenSCENARIO><FileHeader revMajor="1" revMinor="%d" date="2024-01-01T00:00:00" description="" author=""/><ParameterDeclarations/><VariableDeclarations>%s</VariableDeclarations>'
            '<CatalogLocations/><RoadNetwork><LogicFile filepath="%s/r.xodr"/></RoadNetwork><Entities>%s%s</Entities><Storyboard><Init><Actions>%s</Actions></Init>'
            '<Story name="S">%s</Story>%s</Storyboard></OpenSCENARIO>') % (
        minor, "".join('<VariableDeclaration name="%s" variableType="integer" value="0"/>' % v for v in variables), D,
        "".join('<ScenarioObject name="V%d">%s</ScenarioObject>' % (i + 1, VEH) for i in range(nobj)), entities,
        "".join('<Private entityRef="V%d">%s</Private>' % (i + 1, (init or {}).get(i + 1, TELE + speed(20))) for i in range(nobj)), "".join(acts), stop)


def start(xml):
    open("s.xosc", "w").write(xml)
    L.SE_SetOptionPersistent(b"disable_stdout")
    L.SE_RegisterParameterDeclarationCallback(_p, None)
    r = L.SE_Init(b"s.xosc", 0, 0, 0, 0)
    assert r == 0, r


def step(dt=0.1, **v):
    for n, x in v.items():
        L.SE_SetVariableInt(n.encode(), x)
    L.SE_StepDT(dt)


def seen(name):
    return [s for n, s in LOG if n == name]
