"""Small OpenSCENARIO writers shared by the checks."""
import vf
from sbgen import vehicle
from xml.sax.saxutils import quoteattr as q

ROAD = vf.VERIF + "/harness/straight.xodr"


def scenario(entities, init, acts, road=ROAD, params="", variables="", stop="", minor=2, catalogs="", story="S", extra_entities="", init_global=""):
    """entities: [(name, xml)], init: {name: xml of private actions}, acts: xml."""
    return ('<?xml version="1.0" encoding="UTF-8"?><OpenSCENARIO><FileHeader revMajor="1" revMinor="%d" date="2024-01-01T00:00:00" description="" author=""/>'
            '<ParameterDeclarations>%s</ParameterDeclarations><VariableDeclarations>%s</VariableDeclarations><CatalogLocations>%s</CatalogLocations><RoadNetwork><LogicFile filepath="%s"/></RoadNetwork>'
            '<Entities>%s%s</Entities><Storyboard><Init><Actions>%s%s</Actions></Init><Story name="%s">%s</Story>%s</Storyboard></OpenSCENARIO>') % (
        minor, params, variables, catalogs, road, "".join('<ScenarioObject name=%s>%s</ScenarioObject>' % (q(n), x) for n, x in entities), extra_entities, init_global,
        "".join('<Private entityRef=%s>%s</Private>' % (q(n), x) for n, x in init.items()), story, acts, stop)


def intvar(n, v=0):
    return '<VariableDeclaration name="%s" variableType="integer" value="%d"/>' % (n, v)


def teleport_lane(lane, s, off=0.0, road=1, h=None):
    o = "" if h is None else '<Orientation type="relative" h="%r"/>' % h
    return '<PrivateAction><TeleportAction><Position><LanePosition roadId="%s" laneId="%d" offset="%r" s="%r">%s</LanePosition></Position></TeleportAction></PrivateAction>' % (road, lane, off, s, o)


def speed(target, shape="step", dim="time", x=0.0):
    return ('<PrivateAction><LongitudinalAction><SpeedAction><SpeedActionDynamics dynamicsShape="%s" value="%r" dynamicsDimension="%s"/>'
            '<SpeedActionTarget>%s</SpeedActionTarget></SpeedAction></LongitudinalAction></PrivateAction>') % (
        shape, float(x), dim, target if isinstance(target, str) else '<AbsoluteTargetSpeed value="%r"/>' % float(target))


def cond(body, name="C", edge="none", delay=0.0, kind="value"):
    if kind == "value":
        return '<Condition name="%s" delay="%r" conditionEdge="%s"><ByValueCondition>%s</ByValueCondition></Condition>' % (name, float(delay), edge, body)
    return '<Condition name="%s" delay="%r" conditionEdge="%s">%s</Condition>' % (name, float(delay), edge, body)


def varcond(n, v, rule="equalTo", name="C", edge="none"):
    return cond('<VariableCondition variableRef="%s" value="%s" rule="%s"/>' % (n, v, rule), name, edge)


def trigger(*conds, tag="StartTrigger"):
    return "<%s><ConditionGroup>%s</ConditionGroup></%s>" % (tag, "".join(conds), tag)


def event(name, actions, start, prio="parallel", n=1):
    if isinstance(actions, str):
        actions = [actions]
    return '<Event name="%s" priority="%s" maximumExecutionCount="%d">%s%s</Event>' % (
        name, prio, n, "".join('<Action name="%s_a%d">%s</Action>' % (name, i, a) for i, a in enumerate(actions)), start)


def group(name, events, actors=(), n=1, select=False):
    return '<ManeuverGroup name="%s" maximumExecutionCount="%d"><Actors selectTriggeringEntities="%s">%s</Actors><Maneuver name="%s_m">%s</Maneuver></ManeuverGroup>' % (
        name, n, "true" if select else "false", "".join('<EntityRef entityRef="%s"/>' % a for a in actors), name, "".join(events))


def act(name, groups, start="", stop=""):
    return '<Act name="%s">%s%s%s</Act>' % (name, "".join(groups), start, stop)


NOP = '<UserDefinedAction><CustomCommandAction type="nop">x</CustomCommandAction></UserDefinedAction>'


def veh(name="car", vmax=10000.0, amax=100000.0, dmax=None, length=5.0, width=2.0, cx=1.5, cy=0.0, cat="car", props="", params="", role=""):
    return ('<Vehicle name="%s" vehicleCategory="%s"%s><ParameterDeclarations>%s</ParameterDeclarations><BoundingBox><Center x="%r" y="%r" z="0.75"/><Dimensions width="%r" length="%r" height="1.5"/></BoundingBox>'
            '<Performance maxSpeed="%r" maxAcceleration="%r" maxDeceleration="%r"/><Axles><FrontAxle maxSteering="0.5" wheelDiameter="0.6" trackWidth="1.8" positionX="3.1" positionZ="0.3"/>'
            '<RearAxle maxSteering="0.0" wheelDiameter="0.6" trackWidth="1.8" positionX="0.0" positionZ="0.3"/></Axles><Properties>%s</Properties></Vehicle>') % (
        name, cat, ' role="%s"' % role if role else "", params, cx, cy, width, length, vmax, amax, amax if dmax is None else dmax, props)
