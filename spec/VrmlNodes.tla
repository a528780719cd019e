---------------------------- MODULE VrmlNodes ----------------------------
(* The node types of ISO/IEC 14772-1:1997, with their fields, events and    *)
(* default values.                                                           *)
EXTENDS Naturals, Sequences

E(t, n, d) == [x |-> "exposedField", t |-> t, n |-> n, d |-> d]
F(t, n, d) == [x |-> "field", t |-> t, n |-> n, d |-> d]
I(t, n) == [x |-> "eventIn", t |-> t, n |-> n, d |-> <<>>]
O(t, n) == [x |-> "eventOut", t |-> t, n |-> n, d |-> <<>>]

StdNodes == [
    Anchor |-> <<F("SFVec3f", "bboxCenter", <<"0", "0", "0">>),
        F("SFVec3f", "bboxSize", <<"-1", "-1", "-1">>), E("MFNode", "children", <<>>),
        E("SFString", "description", <<"">>), E("MFString", "parameter", <<>>), E("MFString", "url", <<>>),
        I("MFNode", "addChildren"), I("MFNode", "removeChildren")>>,
    Appearance |-> <<E("SFNode", "material", <<>>), E("SFNode", "texture", <<>>),
        E("SFNode", "textureTransform", <<>>)>>,
    AudioClip |-> <<E("SFString", "description", <<"">>), E("SFBool", "loop", <<"FALSE">>),
        E("SFFloat", "pitch", <<"1">>), E("SFTime", "startTime", <<"0">>), E("SFTime", "stopTime", <<"0">>),
        E("MFString", "url", <<>>), O("SFTime", "duration_changed"), O("SFBool", "isActive")>>,
    Background |-> <<E("MFString", "backUrl", <<>>), E("MFString", "bottomUrl", <<>>),
        E("MFString", "frontUrl", <<>>), E("MFFloat", "groundAngle", <<>>),
        E("MFColor", "groundColor", <<>>), E("MFString", "leftUrl", <<>>), E("MFString", "rightUrl", <<>>),
        E("MFFloat", "skyAngle", <<>>), E("MFColor", "skyColor", <<"0", "0", "0">>),
        E("MFString", "topUrl", <<>>), O("SFBool", "isBound"), I("SFBool", "set_bind")>>,
    Billboard |-> <<E("SFVec3f", "axisOfRotation", <<"0", "1", "0">>),
        F("SFVec3f", "bboxCenter", <<"0", "0", "0">>), F("SFVec3f", "bboxSize", <<"-1", "-1", "-1">>),
        E("MFNode", "children", <<>>), I("MFNode", "addChildren"), I("MFNode", "removeChildren")>>,
    Box |-> <<F("SFVec3f", "size", <<"2", "2", "2">>)>>,
    Collision |-> <<F("SFVec3f", "bboxCenter", <<"0", "0", "0">>),
        F("SFVec3f", "bboxSize", <<"-1", "-1", "-1">>), E("MFNode", "children", <<>>),
        E("SFBool", "collide", <<"TRUE">>), F("SFNode", "proxy", <<>>), I("MFNode", "addChildren"),
        O("SFTime", "collideTime"), I("MFNode", "removeChildren")>>,
    Color |-> <<E("MFColor", "color", <<>>)>>,
    ColorInterpolator |-> <<E("MFFloat", "key", <<>>), E("MFColor", "keyValue", <<>>),
        I("SFFloat", "set_fraction"), O("SFColor", "value_changed")>>,
    Cone |-> <<F("SFBool", "bottom", <<"TRUE">>), F("SFFloat", "bottomRadius", <<"1">>),
        F("SFFloat", "height", <<"2">>), F("SFBool", "side", <<"TRUE">>)>>,
    Coordinate |-> <<E("MFVec3f", "point", <<>>)>>,
    CoordinateInterpolator |-> <<E("MFFloat", "key", <<>>), E("MFVec3f", "keyValue", <<>>),
        I("SFFloat", "set_fraction"), O("MFVec3f", "value_changed")>>,
    Cylinder |-> <<F("SFBool", "bottom", <<"TRUE">>), F("SFFloat", "height", <<"2">>),
        F("SFFloat", "radius", <<"1">>), F("SFBool", "side", <<"TRUE">>), F("SFBool", "top", <<"TRUE">>)>>,
    CylinderSensor |-> <<E("SFBool", "autoOffset", <<"TRUE">>), E("SFFloat", "diskAngle", <<"0.262">>),
        E("SFBool", "enabled", <<"TRUE">>), E("SFFloat", "maxAngle", <<"-1">>),
        E("SFFloat", "minAngle", <<"0">>), E("SFFloat", "offset", <<"0">>), O("SFBool", "isActive"),
        O("SFRotation", "rotation_changed"), O("SFVec3f", "trackPoint_changed")>>,
    DirectionalLight |-> <<E("SFFloat", "ambientIntensity", <<"0">>),
        E("SFColor", "color", <<"1", "1", "1">>), E("SFVec3f", "direction", <<"0", "0", "-1">>),
        E("SFFloat", "intensity", <<"1">>), E("SFBool", "on", <<"TRUE">>)>>,
    ElevationGrid |-> <<F("SFBool", "ccw", <<"TRUE">>), E("SFNode", "color", <<>>),
        F("SFBool", "colorPerVertex", <<"TRUE">>), F("SFFloat", "creaseAngle", <<"0">>),
        F("MFFloat", "height", <<>>), E("SFNode", "normal", <<>>),
        F("SFBool", "normalPerVertex", <<"TRUE">>), F("SFBool", "solid", <<"TRUE">>),
        E("SFNode", "texCoord", <<>>), F("SFInt32", "xDimension", <<"0">>),
        F("SFFloat", "xSpacing", <<"1">>), F("SFInt32", "zDimension", <<"0">>),
        F("SFFloat", "zSpacing", <<"1">>), I("MFFloat", "set_height")>>,
    Extrusion |-> <<F("SFBool", "beginCap", <<"TRUE">>), F("SFBool", "ccw", <<"TRUE">>),
        F("SFBool", "convex", <<"TRUE">>), F("SFFloat", "creaseAngle", <<"0">>),
        F("MFVec2f", "crossSection", <<"1", "1", "1", "-1", "-1", "-1", "-1", "1", "1", "1">>),
        F("SFBool", "endCap", <<"TRUE">>), F("MFRotation", "orientation", <<"0", "0", "1", "0">>),
        F("MFVec2f", "scale", <<"1", "1">>), F("SFBool", "solid", <<"TRUE">>),
        F("MFVec3f", "spine", <<"0", "0", "0", "0", "1", "0">>), I("MFVec2f", "set_crossSection"),
        I("MFRotation", "set_orientation"), I("MFVec2f", "set_scale"), I("MFVec3f", "set_spine")>>,
    Fog |-> <<E("SFColor", "color", <<"1", "1", "1">>), E("SFString", "fogType", <<"LINEAR">>),
        E("SFFloat", "visibilityRange", <<"0">>), O("SFBool", "isBound"), I("SFBool", "set_bind")>>,
    FontStyle |-> <<F("MFString", "family", <<"SERIF">>), F("SFBool", "horizontal", <<"TRUE">>),
        F("MFString", "justify", <<"BEGIN">>), F("SFString", "language", <<"">>),
        F("SFBool", "leftToRight", <<"TRUE">>), F("SFFloat", "size", <<"1">>),
        F("SFFloat", "spacing", <<"1">>), F("SFString", "style", <<"PLAIN">>),
        F("SFBool", "topToBottom", <<"TRUE">>)>>,
    Group |-> <<F("SFVec3f", "bboxCenter", <<"0", "0", "0">>),
        F("SFVec3f", "bboxSize", <<"-1", "-1", "-1">>), E("MFNode", "children", <<>>),
        I("MFNode", "addChildren"), I("MFNode", "removeChildren")>>,
    ImageTexture |-> <<F("SFBool", "repeatS", <<"TRUE">>), F("SFBool", "repeatT", <<"TRUE">>),
        E("MFString", "url", <<>>)>>,
    IndexedFaceSet |-> <<F("SFBool", "ccw", <<"TRUE">>), E("SFNode", "color", <<>>),
        F("MFInt32", "colorIndex", <<>>), F("SFBool", "colorPerVertex", <<"TRUE">>),
        F("SFBool", "convex", <<"TRUE">>), E("SFNode", "coord", <<>>), F("MFInt32", "coordIndex", <<>>),
        F("SFFloat", "creaseAngle", <<"0">>), E("SFNode", "normal", <<>>), F("MFInt32", "normalIndex", <<>>),
        F("SFBool", "normalPerVertex", <<"TRUE">>), F("SFBool", "solid", <<"TRUE">>),
        E("SFNode", "texCoord", <<>>), F("MFInt32", "texCoordIndex", <<>>), I("MFInt32", "set_colorIndex"),
        I("MFInt32", "set_coordIndex"), I("MFInt32", "set_normalIndex"), I("MFInt32", "set_texCoordIndex")>>,
    IndexedLineSet |-> <<E("SFNode", "color", <<>>), F("MFInt32", "colorIndex", <<>>),
        F("SFBool", "colorPerVertex", <<"TRUE">>), E("SFNode", "coord", <<>>),
        F("MFInt32", "coordIndex", <<>>), I("MFInt32", "set_colorIndex"), I("MFInt32", "set_coordIndex")>>,
    Inline |-> <<F("SFVec3f", "bboxCenter", <<"0", "0", "0">>),
        F("SFVec3f", "bboxSize", <<"-1", "-1", "-1">>), E("MFString", "url", <<>>)>>,
    LOD |-> <<F("SFVec3f", "center", <<"0", "0", "0">>), E("MFNode", "level", <<>>),
        F("MFFloat", "range", <<>>)>>,
    Material |-> <<E("SFFloat", "ambientIntensity", <<"0.2">>),
        E("SFColor", "diffuseColor", <<"0.8", "0.8", "0.8">>),
        E("SFColor", "emissiveColor", <<"0", "0", "0">>), E("SFFloat", "shininess", <<"0.2">>),
        E("SFColor", "specularColor", <<"0", "0", "0">>), E("SFFloat", "transparency", <<"0">>)>>,
    MovieTexture |-> <<E("SFBool", "loop", <<"FALSE">>), F("SFBool", "repeatS", <<"TRUE">>),
        F("SFBool", "repeatT", <<"TRUE">>), E("SFFloat", "speed", <<"1">>),
        E("SFTime", "startTime", <<"0">>), E("SFTime", "stopTime", <<"0">>), E("MFString", "url", <<>>),
        O("SFTime", "duration_changed"), O("SFBool", "isActive")>>,
    NavigationInfo |-> <<E("MFFloat", "avatarSize", <<"0.25", "1.6", "0.75">>),
        E("SFBool", "headlight", <<"TRUE">>), E("SFFloat", "speed", <<"1">>),
        E("MFString", "type", <<"WALK", "ANY">>), E("SFFloat", "visibilityLimit", <<"0">>), O("SFBool", "isBound"),
        I("SFBool", "set_bind")>>,
    Normal |-> <<E("MFVec3f", "vector", <<>>)>>,
    NormalInterpolator |-> <<E("MFFloat", "key", <<>>), E("MFVec3f", "keyValue", <<>>),
        I("SFFloat", "set_fraction"), O("MFVec3f", "value_changed")>>,
    OrientationInterpolator |-> <<E("MFFloat", "key", <<>>), E("MFRotation", "keyValue", <<>>),
        I("SFFloat", "set_fraction"), O("SFRotation", "value_changed")>>,
    PixelTexture |-> <<E("SFImage", "image", <<"0", "0", "0">>), F("SFBool", "repeatS", <<"TRUE">>),
        F("SFBool", "repeatT", <<"TRUE">>)>>,
    PlaneSensor |-> <<E("SFBool", "autoOffset", <<"TRUE">>), E("SFBool", "enabled", <<"TRUE">>),
        E("SFVec2f", "maxPosition", <<"-1", "-1">>), E("SFVec2f", "minPosition", <<"0", "0">>),
        E("SFVec3f", "offset", <<"0", "0", "0">>), O("SFBool", "isActive"),
        O("SFVec3f", "trackPoint_changed"), O("SFVec3f", "translation_changed")>>,
    PointLight |-> <<E("SFFloat", "ambientIntensity", <<"0">>),
        E("SFVec3f", "attenuation", <<"1", "0", "0">>), E("SFColor", "color", <<"1", "1", "1">>),
        E("SFFloat", "intensity", <<"1">>), E("SFVec3f", "location", <<"0", "0", "0">>),
        E("SFBool", "on", <<"TRUE">>), E("SFFloat", "radius", <<"100">>)>>,
    PointSet |-> <<E("SFNode", "color", <<>>), E("SFNode", "coord", <<>>)>>,
    PositionInterpolator |-> <<E("MFFloat", "key", <<>>), E("MFVec3f", "keyValue", <<>>),
        I("SFFloat", "set_fraction"), O("SFVec3f", "value_changed")>>,
    ProximitySensor |-> <<E("SFVec3f", "center", <<"0", "0", "0">>), E("SFBool", "enabled", <<"TRUE">>),
        E("SFVec3f", "size", <<"0", "0", "0">>), O("SFTime", "enterTime"), O("SFTime", "exitTime"),
        O("SFBool", "isActive"), O("SFRotation", "orientation_changed"), O("SFVec3f", "position_changed")>>,
    ScalarInterpolator |-> <<E("MFFloat", "key", <<>>), E("MFFloat", "keyValue", <<>>),
        I("SFFloat", "set_fraction"), O("SFFloat", "value_changed")>>,
    Shape |-> <<E("SFNode", "appearance", <<>>), E("SFNode", "geometry", <<>>)>>,
    Sound |-> <<E("SFVec3f", "direction", <<"0", "0", "1">>), E("SFFloat", "intensity", <<"1">>),
        E("SFVec3f", "location", <<"0", "0", "0">>), E("SFFloat", "maxBack", <<"10">>),
        E("SFFloat", "maxFront", <<"10">>), E("SFFloat", "minBack", <<"1">>),
        E("SFFloat", "minFront", <<"1">>), E("SFFloat", "priority", <<"0">>), E("SFNode", "source", <<>>),
        F("SFBool", "spatialize", <<"TRUE">>)>>,
    Sphere |-> <<F("SFFloat", "radius", <<"1">>)>>,
    SphereSensor |-> <<E("SFBool", "autoOffset", <<"TRUE">>), E("SFBool", "enabled", <<"TRUE">>),
        E("SFRotation", "offset", <<"0", "1", "0", "0">>), O("SFBool", "isActive"),
        O("SFRotation", "rotation_changed"), O("SFVec3f", "trackPoint_changed")>>,
    SpotLight |-> <<E("SFFloat", "ambientIntensity", <<"0">>),
        E("SFVec3f", "attenuation", <<"1", "0", "0">>), E("SFFloat", "beamWidth", <<"1.570796">>),
        E("SFColor", "color", <<"1", "1", "1">>), E("SFFloat", "cutOffAngle", <<"0.785398">>),
        E("SFVec3f", "direction", <<"0", "0", "-1">>), E("SFFloat", "intensity", <<"1">>),
        E("SFVec3f", "location", <<"0", "0", "0">>), E("SFBool", "on", <<"TRUE">>),
        E("SFFloat", "radius", <<"100">>)>>,
    Switch |-> <<E("MFNode", "choice", <<>>), E("SFInt32", "whichChoice", <<"-1">>)>>,
    Text |-> <<E("SFNode", "fontStyle", <<>>), E("MFFloat", "length", <<>>),
        E("SFFloat", "maxExtent", <<"0">>), E("MFString", "string", <<>>)>>,
    TextureCoordinate |-> <<E("MFVec2f", "point", <<>>)>>,
    TextureTransform |-> <<E("SFVec2f", "center", <<"0", "0">>), E("SFFloat", "rotation", <<"0">>),
        E("SFVec2f", "scale", <<"1", "1">>), E("SFVec2f", "translation", <<"0", "0">>)>>,
    TimeSensor |-> <<E("SFTime", "cycleInterval", <<"1">>), E("SFBool", "enabled", <<"TRUE">>),
        E("SFBool", "loop", <<"FALSE">>), E("SFTime", "startTime", <<"0">>),
        E("SFTime", "stopTime", <<"0">>), O("SFTime", "cycleTime"), O("SFFloat", "fraction_changed"),
        O("SFBool", "isActive"), O("SFTime", "time")>>,
    TouchSensor |-> <<E("SFBool", "enabled", <<"TRUE">>), O("SFVec3f", "hitNormal_changed"),
        O("SFVec3f", "hitPoint_changed"), O("SFVec2f", "hitTexCoord_changed"), O("SFBool", "isActive"),
        O("SFBool", "isOver"), O("SFTime", "touchTime")>>,
    Transform |-> <<F("SFVec3f", "bboxCenter", <<"0", "0", "0">>),
        F("SFVec3f", "bboxSize", <<"-1", "-1", "-1">>), E("SFVec3f", "center", <<"0", "0", "0">>),
        E("MFNode", "children", <<>>), E("SFRotation", "rotation", <<"0", "0", "1", "0">>),
        E("SFVec3f", "scale", <<"1", "1", "1">>),
        E("SFRotation", "scaleOrientation", <<"0", "0", "1", "0">>),
        E("SFVec3f", "translation", <<"0", "0", "0">>), I("MFNode", "addChildren"),
        I("MFNode", "removeChildren")>>,
    Viewpoint |-> <<F("SFString", "description", <<"">>), E("SFFloat", "fieldOfView", <<"0.785398">>),
        E("SFBool", "jump", <<"TRUE">>), E("SFRotation", "orientation", <<"0", "0", "1", "0">>),
        E("SFVec3f", "position", <<"0", "0", "10">>), O("SFTime", "bindTime"), O("SFBool", "isBound"),
        I("SFBool", "set_bind")>>,
    VisibilitySensor |-> <<E("SFVec3f", "center", <<"0", "0", "0">>), E("SFBool", "enabled", <<"TRUE">>),
        E("SFVec3f", "size", <<"0", "0", "0">>), O("SFTime", "enterTime"), O("SFTime", "exitTime"),
        O("SFBool", "isActive")>>,
    WorldInfo |-> <<F("MFString", "info", <<>>), F("SFString", "title", <<"">>)>>]
=============================================================================
