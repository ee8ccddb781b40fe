"""descriptions as OpenFAST writes them in linearization files"""


def states():
    L = []
    for k, n in (('1st', 'TFA1'), ('2nd', 'TFA2')):
        L.append(('ED %s tower fore-aft bending mode DOF (internal DOF index = DOF_%s)' % (k, n), 'm'))
        L.append(('ED %s tower side-to-side bending mode DOF (internal DOF index = DOF_%s)' % (k, n.replace('FA', 'SS')), 'm'))
    L += [('ED Variable speed generator DOF (internal DOF index = DOF_GeAz)', 'rad'), ('ED Drivetrain rotational-flexibility DOF (internal DOF index = DOF_DrTr)', 'rad'), ('ED Nacelle yaw DOF (internal DOF index = DOF_Yaw)', 'rad')]
    for b in (1, 2, 3):
        L += [('ED 1st flapwise bending-mode DOF of blade %d (internal DOF index = DOF_BF(%d,1))' % (b, b), 'm'), ('ED 2nd flapwise bending-mode DOF of blade %d (internal DOF index = DOF_BF(%d,2))' % (b, b), 'm'),
              ('ED 1st edgewise bending-mode DOF of blade %d (internal DOF index = DOF_BE(%d,1))' % (b, b), 'm')]
    for t, u in (('horizontal surge translation', 'm'), ('horizontal sway translation', 'm'), ('vertical heave translation', 'm'), ('roll tilt rotation', 'rad'), ('pitch tilt rotation', 'rad'), ('yaw rotation', 'rad')):
        L.append(('ED Platform %s DOF (internal DOF index = DOF_X)' % t, u))
    for b in (1, 2, 3):
        for n in (1, 2, 10):
            for x in 'XYZ':
                L += [('BD_%d translational displacement in %s, finite element node %d' % (b, x, n), 'm'), ('BD_%d rotational displacement in %s, finite element node %d' % (b, x, n), 'rad')]
    return L


def x():
    S = states()
    return ['%s, %s' % (a, u) for a, u in S] + ['%s First time derivative of %s, %s/s' % (a.split()[0], ' '.join(a.split()[1:]), u) for a, u in S]


def xdot():
    S = states()
    return ['First time derivative of %s, %s/s' % (a, u) for a, u in S] + ['First time derivative of %s First time derivative of %s, %s/s/s' % (a.split()[0], ' '.join(a.split()[1:]), u) for a, u in S]


def u():
    L = ['IfW Extended input: horizontal wind speed (steady/uniform wind), m/s', 'IfW Extended input: vertical power-law shear exponent, -', 'IfW Extended input: propagation direction, rad', 'ED Yaw moment, Nm', 'ED Generator torque, Nm',
         'ED Extended input: collective blade-pitch command, rad', 'HD Extended input: wave elevation at platform ref point, m']
    L += ['ED Blade %d pitch command, rad' % b for b in (1, 2, 3)]
    for x in 'XYZ':
        for n in (1, 3, 11):
            L += ['IfW %s-component inflow velocity at node %d, m/s' % (x, n), 'AD %s-component inflow on tower node %d, m/s' % (x, n), 'ED Tower %s force, node %d, N/m' % (x, n), 'ED Tower %s moment, node %d, Nm/m' % (x, n), 'ED Platform %s force, node %d, N' % (x, n), 'ED Platform %s moment, node %d, Nm' % (x, n),
                  'ED Nacelle %s force, node %d, N' % (x, n), 'ED Hub %s moment, node %d, Nm' % (x, n)]
            for b in (1, 2, 3):
                L += ['AD %s-component inflow on blade %d, node %d, m/s' % (x, b, n), 'ED Blade %d %s force, node %d, N' % (b, x, n), 'ED Blade %d %s moment, node %d, Nm' % (b, x, n)]
    return L


def y():
    L = ['%s %s, (%s)' % t for t in (('IfW', 'Wind1VelX', 'm/s'), ('SrvD', 'GenPwr', 'kW'), ('SrvD', 'GenTq', 'kN-m'), ('ED', 'BldPitch1', 'deg'), ('ED', 'RotSpeed', 'rpm'), ('ED', 'NcIMUTAxs', 'm/s^2'), ('ED', 'NcIMURAys', 'deg/s^2'), ('ED', 'TTDspFA', 'm'), ('ED', 'RotThrust', 'kN'), ('ED', 'YawBrMyp', 'kN-m'),
                                     ('ED', 'HSShftV', 'rpm'), ('AD', 'B1N1Fx', 'N/m'), ('HD', 'Wave1Elev', 'm'), ('SD', 'M1N1FKXe', 'N'), ('SD', 'M1N1MKXe', 'N-m'), ('SD', 'M2N1FKYe', 'N'), ('BD_1', 'RootFxr', 'N'), ('ED', 'PtfmRAxi', 'rad/s^2'), ('ED', 'LSSTipVxa', 'rad/s'), ('ED', 'X', 'rad'), ('ED', 'F', 'N'))]
    for x in 'XYZ':
        for n in (1, 12):
            for body in ('Blade 1', 'Blade 2', 'Blade 3', 'Tower', 'Platform', 'Hub', 'Nacelle'):
                for q, un in (('translation displacement', 'm'), ('translation velocity', 'm/s'), ('translation acceleration', 'm/s^2'), ('orientation angle', 'rad'), ('rotation velocity', 'rad/s'), ('rotation acceleration', 'rad/s^2')):
                    L.append('ED %s %s %s, node %d, %s' % (body, x, q, n, un))
    return L


def all():
    return dict(x=x(), xdot=xdot(), u=u(), y=y())
