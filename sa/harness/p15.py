from comp import *


def flow(i):
    """every stage of both measurements with stand-ins that offer exactly the operations of their interfaces"""
    occ, pots, resps = [OccD("o1"), OccD("o2", probe=True)], [PotD("p1")], [RespD("r1"), RespD("r2")]
    sensor = (Plain(), Scan(), Stacked(), Scan())[i % 4]
    sim = Simulation(volt_limits_g1=np.array([-10.0, 10.0]), volt_limits_g2=np.array([-10.0, 10.0]),
                     volt_limits_sensor_g1=np.array([-10.0, 10.0]), volt_limits_sensor_g2=np.array([-10.0, 10.0]),
                     ideal_csd_config=Ideal(), sensor=sensor, occupation_distortions=occ if i < 4 else None,
                     sensor_potential_distortions=pots if i < 4 else None, sensor_response_distortions=resps if i < 4 else None)
    s1, s2 = np.array([-1.0, 2.0]), np.array([-2.0, 1.0])
    sim.measure(s1, s2, resolution=np.array([4, 3]))
    sim.measure(s1, np.array([0.5, 0.5]), 0.25, 0.5, 5)
    if i % 4 > 0:
        sim.measure_sensor_scan(s1, s2, 0.5, -0.5, resolution=np.array([4, 3]))
        sim.measure_sensor_scan(s1, s2, resolution=np.array([4, 3]))
